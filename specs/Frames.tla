------------------------------- MODULE Frames -------------------------------
(* Linked frames as their user sees them: linking, looking up, aggregating,   *)
(* deriving frames from frames, fill values, evaluating and pivoting.         *)
EXTENDS Semantics

EmptyFrame == [cols |-> <<>>, kind |-> NoFn, data |-> NoFn, idx |-> <<>>, inames |-> <<>>, ldf |-> TRUE,
               links |-> NoFn, inst |-> NoFn, colfill |-> NoFn]
PutF(f, n, v) == (n :> v) @@ f
NRows(F) == Len(F.idx)
FromEvent(e) == [EmptyFrame EXCEPT !.cols = e.cols, !.kind = e.kind, !.data = e.data, !.idx = e.idx,
                                   !.inames = e.inames, !.ldf = e.ldf]

-----------------------------------------------------------------------------
\* Linking. Every argument is <<>> (not given) or a sequence of labels [k: "name" or "pos", v, n].
LevelPos(F, l) ==
    IF l.k = "pos" THEN (IF l.n >= 0 /\ l.n < Len(F.inames) THEN l.n + 1 ELSE 0)
    ELSE IF \E p \in DOMAIN F.inames : F.inames[p] = l.v THEN CHOOSE p \in DOMAIN F.inames : F.inames[p] = l.v ELSE 0
SideKeys(F, cols, levels) ==
    IF levels # <<>> THEN [r \in 1..NRows(F) |-> [p \in DOMAIN levels |-> F.idx[r][LevelPos(F, levels[p])]]]
    ELSE IF cols # <<>> THEN [r \in 1..NRows(F) |-> [p \in DOMAIN cols |-> F.data[cols[p].v][r]]]
    ELSE F.idx
SideLevels(F, cols, levels) ==
    IF levels # <<>> THEN Len(levels) ELSE IF cols # <<>> THEN Len(cols) ELSE Len(F.inames)
SideKnown(F, cols, levels) ==
    IF levels # <<>> THEN Len(levels) <= Len(F.inames) /\ \A p \in DOMAIN levels : LevelPos(F, levels[p]) # 0
    ELSE \A p \in DOMAIN cols : cols[p].k = "name" /\ cols[p].v \in Range(F.cols)
Distinct(s) == \A m, n \in DOMAIN s : m < n => s[m] # s[n]

LinkSpec(S, e) == \* [res, link]
    LET a == e.args
        F == S.frames[e.f]
        T == S.frames[e.target]
        sc == IF a.on # <<>> THEN a.on ELSE a.on_self
        oc == IF a.on # <<>> THEN a.on ELSE a.on_other
        sl == IF a.levels # <<>> THEN a.levels ELSE a.self_levels
        ol == IF a.levels # <<>> THEN a.levels ELSE a.other_levels
        no == [target |-> "", skeys |-> <<>>, okeys |-> <<>>, agg |-> FALSE, self |-> <<>>, other |-> <<>>, pre |-> "?",
               ident |-> FALSE]
        posbad == \E l \in Range(sl) \cup Range(ol) : l.k = "pos" /\ (l.n < 0 \/ l.n >= Len(F.inames) \/ l.n >= Len(T.inames))
    IN IF (a.on # <<>> /\ a.levels # <<>>) \/ (sc # <<>> /\ sl # <<>>) \/ (oc # <<>> /\ ol # <<>>)
       THEN [res |-> {"LinkageSpecificationError"}, link |-> no]
       ELSE IF SideLevels(F, sc, sl) # SideLevels(T, oc, ol) \/ ~SideKnown(F, sc, sl) \/ ~SideKnown(T, oc, ol)
       THEN [res |-> IF posbad THEN {"error"} ELSE {"LinkageSpecificationError", "KeyError"}, link |-> no]
       ELSE LET sk == SideKeys(F, sc, sl) ok == SideKeys(T, oc, ol) su == Distinct(sk) ou == Distinct(ok) IN
            IF ~su /\ ~ou THEN [res |-> {"error"}, link |-> no]
            ELSE [res |-> {"ok"},
                  link |-> [target |-> e.target, skeys |-> sk, okeys |-> ok, agg |-> su /\ ~ou,
                            pre |-> IF e.precompute THEN "yes" ELSE "no", ident |-> e.ident,
                            self |-> <<IF sl # <<>> \/ sc = <<>> THEN "index" ELSE "columns", IF sl # <<>> THEN sl ELSE sc>>,
                            other |-> <<IF ol # <<>> \/ oc = <<>> THEN "index" ELSE "columns", IF ol # <<>> THEN ol ELSE oc>>]]

-----------------------------------------------------------------------------
\* Other keys in a column of frame f, after which the links of all frames are indexed again
Rekeyed(S, g, l, f) ==
    LET side(h, how, old) == IF h # f \/ how[1] # "columns" THEN old ELSE SideKeys(S.frames[h], how[2], <<>>)
    IN [l EXCEPT !.skeys = side(g, l.self, @), !.okeys = side(l.target, l.other, @), !.pre = "yes"]
Rekey(S, f, col, v) ==
    LET T == [S EXCEPT !.frames[f].data[col] = v]
    IN [T EXCEPT !.frames = [g \in DOMAIN @ |-> [@[g] EXCEPT !.links = [n \in DOMAIN @ |-> Rekeyed(T, g, @[n], f)]]]]

\* Deriving. e.rows[r] is the row of the source which row r was made from, 0 for a row that is new.
\* Whether a link has been indexed (pre) is "yes", "no", or "?" for a derived link and one that may have been used since.
DerivedLink(link, rows) == [link EXCEPT !.pre = "?", !.skeys = [r \in DOMAIN rows |-> IF rows[r] = 0 THEN <<>> ELSE link.skeys[rows[r]]]]
Derived(S, e) ==
    LET F == S.frames[e.f]
        kept == Range(e.links) \cap DOMAIN F.links
    IN [FromEvent(e) EXCEPT !.links = [n \in kept |-> DerivedLink(F.links[n], e.rows)]]

-----------------------------------------------------------------------------
\* Looking up and aggregating: the values for all rows of a frame
LookupAll(S, fid, names) ==
    [r \in 1..NRows(S.frames[fid]) |-> ColumnThrough(S.frames, S.cls, fid, Front(names), Last(names), r)]
AggAll(S, e) ==
    [r \in 1..NRows(S.frames[e.f]) |->
        AggSquare(S.frames, S.cls, e.f, r, e.path, e.func, e.arg, e.q, e.intfill)]
EvalAll(S, e) ==
    [r \in 1..NRows(S.frames[e.f]) |->
        Eval(e.ast, [mode |-> "frame", frames |-> S.frames, cls |-> S.cls, fid |-> e.f, r |-> r, loc |-> e.loc])]
LookupOk(S, fid, names) ==
    /\ PathOk(S.frames, fid, Front(names), FALSE)
    /\ Last(names) \in Range(S.frames[PathTarget(S.frames, fid, Front(names))].cols)

\* The names of an expression are all known
RECURSIVE Known(_, _, _, _)
Known(S, fid, loc, x) ==
    CASE x[1] = "sym" -> x[2] \in Range(S.frames[fid].cols) \cup DOMAIN loc
      [] x[1] = "attr" -> PathOk(S.frames, fid, Front(x[2]), FALSE)
                          /\ Last(x[2]) \in Range(S.frames[PathTarget(S.frames, fid, Front(x[2]))].cols)
      \* What is aggregated only sees the target
      [] x[1] = "agg" -> PathOk(S.frames, fid, x[2], TRUE) /\ Known(S, PathTarget(S.frames, fid, x[2]), NoFn, x[4])
      [] x[1] = "dict" -> FALSE
      [] OTHER -> \A n \in DOMAIN Kids(x) : Known(S, fid, loc, Kids(x)[n])
\* Where the result goes: nowhere ("") or to an array of some type. A floating point number fits a narrower one only if
\* casting is allowed, and never an integer. (Other results are only stored as f8.)
Stores(e) == e.out = "" \/ e.out = "f8" \/ (e.out = "f4" /\ e.cast)
EvalOk(S, e) ==
    /\ e.nat = 0
    /\ Stores(e)
    /\ ~BadShape(e.ast)
    /\ SimpleNames(e.ast) \cap ChainNames(e.ast) = {}
    /\ Known(S, e.f, e.loc, e.ast)

\* Statistics which need numbers
AggAllowed(S, e) ==
    LET t == PathTarget(S.frames, e.f, e.path) IN
    e.func \in {"count", "first", "last", "nth"} \/ KindOf(e.arg, S.frames, t) \in {"i", "u", "f", "b", "?"}

-----------------------------------------------------------------------------
\* Pivoting: e.index, e.columns and e.values are sequences of [name, ast]; e.func is the statistic. The result is given
\* as the sequence of its cells [row key, column key, value name, value].
PivotKeys(S, e, items) ==
    [r \in 1..NRows(S.frames[e.f]) |->
        [p \in DOMAIN items |->
            Eval(items[p].ast, [mode |-> "frame", frames |-> S.frames, cls |-> S.cls, fid |-> e.f, r |-> r, loc |-> NoFn])]]
PivotCells(S, e) ==
    LET rk == PivotKeys(S, e, e.index)
        ck == PivotKeys(S, e, e.columns)
        vk == PivotKeys(S, e, e.values)
        rows == {r \in DOMAIN rk : \A p \in DOMAIN rk[r] : ~IsNaN(rk[r][p])} \cap {r \in DOMAIN ck : \A p \in DOMAIN ck[r] : ~IsNaN(ck[r][p])}
        keys == {<<rk[r], ck[r]>> : r \in rows}
    IN { <<k[1], k[2], n, Statistic(e.func,
              [m \in 1..Len(SelectSeq([r \in DOMAIN rk |-> r], LAMBDA r : r \in rows /\ <<rk[r], ck[r]>> = k)) |->
                  vk[SelectSeq([r \in DOMAIN rk |-> r], LAMBDA r : r \in rows /\ <<rk[r], ck[r]>> = k)[m]][n]],
              IntV(0))>> : k \in keys, n \in DOMAIN e.values }
\* Cells without a value are left out on both sides
PivotExpected(S, e) == {c \in PivotCells(S, e) : ~IsNaN(c[4])}
\* With a fill value there are cells for all the rows and columns there are
PivotFilled(e, exp, obs) ==
    IF e.fill = <<>> THEN exp = obs
    ELSE /\ exp \subseteq obs
         /\ \A c \in obs \ exp : c[4] = e.fill[1] /\ ~\E d \in exp : <<c[1], c[2], c[3]>> = <<d[1], d[2], d[3]>>
         /\ \A r \in {c[1] : c \in exp}, k \in {<<c[2], c[3]>> : c \in exp} : \E c \in obs : <<c[1], c[2], c[3]>> = <<r, k[1], k[2]>>
PivotObserved(e) == {<<e.cells[n][1], e.cells[n][2], e.cells[n][3], e.cells[n][4]>> : n \in DOMAIN e.cells}

-----------------------------------------------------------------------------
\* Fill values. who is "" for the class or the name of a frame.
Stored(S, who) == IF who = "" THEN S.cls ELSE S.frames[who].inst
WithStored(S, who, f) == IF who = "" THEN [S EXCEPT !.cls = f]
                         ELSE [S EXCEPT !.frames = PutF(S.frames, who, [S.frames[who] EXCEPT !.inst = f])]
Saved(f, kinds) == [k \in kinds |-> IF k \in DOMAIN f THEN <<f[k]>> ELSE <<>>]
Restored(f, saved) ==
    LET dropped == {k \in DOMAIN saved : saved[k] = <<>>} IN
    [k \in (DOMAIN f \cup DOMAIN saved) \ dropped |->
        IF k \in DOMAIN saved THEN saved[k][1] ELSE f[k]]

\* Indexing links: all those of a frame, those on a path, or perhaps some of any frame
PreAs(S, f, names, how) ==
    [S EXCEPT !.frames[f].links = [n \in DOMAIN @ |->
        IF n \in names THEN [@[n] EXCEPT !.pre = IF how = "?" /\ @ = "yes" THEN "yes" ELSE how] ELSE @[n]]]
RECURSIVE PrePath(_, _, _)
PrePath(S, f, path) ==
    IF path = <<>> THEN S
    ELSE PrePath(PreAs(S, f, {Head(path)}, "yes"), S.frames[f].links[Head(path)].target, Tail(path))
PreAny(S) ==
    [S EXCEPT !.frames = [f \in DOMAIN @ |->
        [@[f] EXCEPT !.links = [n \in DOMAIN @ |-> [@[n] EXCEPT !.pre = IF @ = "yes" THEN "yes" ELSE "?"]]]]]

FOut(S, res) == [st |-> S, res |-> res]
DoFrame(S, e) ==
    CASE e.op = "frame" -> FOut([S EXCEPT !.frames = PutF(S.frames, e.id, FromEvent(e))], {"ok"})
      [] e.op = "link" ->
            LET l == LinkSpec(S, e) IN
            IF l.res = {"ok"}
            THEN FOut([S EXCEPT !.frames = PutF(S.frames, e.f, [S.frames[e.f] EXCEPT !.links = PutF(@, e.name, l.link)])], l.res)
            ELSE FOut(S, l.res)
      [] e.op = "derive" -> LET T == PreAny(S) IN FOut([T EXCEPT !.frames = PutF(T.frames, e.id, Derived(S, e))], {"ok"})
      [] e.op \in {"compute", "summary", "target"} /\ ~S.frames[e.f].ldf -> FOut(S, {"error"})
      [] e.op = "compute" -> FOut(PreAs(S, e.f, DOMAIN S.frames[e.f].links, "yes"), {"ok"})
      [] e.op = "rekey" -> FOut(Rekey(S, e.f, e.col, e.v), {"ok"})
      [] e.op = "summary" -> FOut(S, {"ok"})
      [] e.op = "target" -> FOut(S, IF e.name \in DOMAIN S.frames[e.f].links THEN {"ok"} ELSE {"KeyError"})
      [] e.op = "lookup" -> IF LookupOk(S, e.f, e.names) THEN FOut(PrePath(S, e.f, Front(e.names)), {"ok"})
                            ELSE FOut(S, {"error"})
      [] e.op = "agg" -> IF PathOk(S.frames, e.f, e.path, TRUE) /\ Known(S, PathTarget(S.frames, e.f, e.path), NoFn, e.arg)
                            /\ AggAllowed(S, e)
                         THEN LET T == PrePath(S, e.f, e.path) IN
                              FOut(IF e.arg[1] \in {"sym", "col", "num"} THEN T ELSE PreAny(T), {"ok"})
                         ELSE FOut(PreAny(S), {"error"})
      [] e.op = "eval" -> FOut(PreAny(S), IF EvalOk(S, e) THEN {"ok"} ELSE {"error"})
      [] e.op = "pivot" -> FOut(PreAny(S), {"ok"})
      [] e.op = "members" -> FOut(PreAny(S), {IF PathOk(S.frames, e.f, e.path, TRUE) \/ PathOk(S.frames, e.f, e.path, FALSE) THEN "ok" ELSE "error"})
      [] e.op = "export" -> FOut(S, {"ok"})
      [] e.op \in {"setfill", "tempfill"} /\ e.bad -> FOut(S, {"KeyError"})
      [] e.op = "setfill" -> FOut(WithStored(S, e.who, e.fills @@ Stored(S, e.who)), {"ok"})
      [] e.op = "resetfill" -> FOut(WithStored(S, e.who, IF e.who = "" THEN DefaultFills ELSE NoFn), {"ok"})
      [] e.op = "tempfill" ->
            FOut([WithStored(S, e.who, e.fills @@ Stored(S, e.who))
                    EXCEPT !.temps = Append(S.temps, [who |-> e.who, saved |-> Saved(Stored(S, e.who), DOMAIN e.fills)])], {"ok"})
      [] e.op = "endfill" ->
            LET t == Last(S.temps) IN
            FOut([WithStored(S, t.who, Restored(Stored(S, t.who), t.saved)) EXCEPT !.temps = Front(S.temps)], {"ok"})
      [] e.op = "colfill" ->
            IF e.col \in Range(S.frames[e.f].cols)
            THEN FOut([S EXCEPT !.frames = PutF(S.frames, e.f, [S.frames[e.f] EXCEPT !.colfill = PutF(@, e.col, e.v)])], {"ok"})
            ELSE FOut(S, {"KeyError"})

-----------------------------------------------------------------------------
SameSeq(exp, obs) == Len(exp) = Len(obs) /\ \A r \in DOMAIN exp : Match(exp[r], obs[r])
SameIndex(S, e) == e.idx = S.frames[e.f].idx

\* What is found at the end of a path: the columns whose names are identifiers (e.idents) and the links of the target, or the
\* statistics if there can be several rows
Statistics == {"count", "first", "last", "nth", "max", "min", "mean", "median", "prod", "std", "sum", "var", "quantile"}
Members(S, e) ==
    IF PathOk(S.frames, e.f, e.path, TRUE) THEN Statistics
    ELSE LET T == S.frames[PathTarget(S.frames, e.f, e.path)] IN
         (Range(T.cols) \cap Range(e.idents)) \cup (IF T.ldf THEN DOMAIN T.links ELSE {})

SummaryRow(S, f, n) ==
    LET l == S.frames[f].links[n] IN
    [name |-> n, rows |-> NRows(S.frames[l.target]), cols |-> Len(S.frames[l.target].cols),
     chained |-> S.frames[l.target].ldf, agg |-> l.agg, self |-> l.self, other |-> l.other]
\* The flags of links not known to be indexed or not
SummaryPre(S, f, e) ==
    \A n \in DOMAIN S.frames[f].links :
        S.frames[f].links[n].pre = "?" \/ (n \in DOMAIN e.pre /\ S.frames[f].links[n].pre = e.pre[n])

\* Columns of any objects without a value look like text
SameKind(exp, obs) == exp = obs \/ (exp = "o" /\ obs = "s")

JudgeFrameOk(S, d, e) ==
    CASE e.op = "link" ->
            IF e.agg = d.st.frames[e.f].links[e.name].agg THEN {}
            ELSE {"aggregation is reported exactly when it is required"}
      [] e.op = "derive" ->
            (IF Range(e.links) \subseteq DOMAIN S.frames[e.f].links THEN {} ELSE {"derived frames have no new links"})
            \cup (IF ~e.must \/ DOMAIN S.frames[e.f].links \subseteq Range(e.links) THEN {} ELSE {"derived frames keep their links"})
      [] e.op = "lookup" ->
            (IF SameSeq(LookupAll(S, e.f, e.names), e.v) THEN {} ELSE {"the value of the matching row, or the fill"})
            \cup (IF SameIndex(S, e) THEN {} ELSE {"lookups have the index of the frame"})
            \cup (IF SameKind(S.frames[PathTarget(S.frames, e.f, Front(e.names))].kind[Last(e.names)], e.kind) THEN {}
                  ELSE {"looked-up values keep their type"})
      [] e.op = "agg" ->
            (IF SameSeq(AggAll(S, e), e.v) THEN {} ELSE {"the statistic of the matching rows, or the fill"})
            \cup (IF SameIndex(S, e) THEN {} ELSE {"aggregations have the index of the frame"})
      [] e.op = "eval" ->
            (IF SameSeq(EvalAll(S, e), e.v) THEN {} ELSE {"the value of the expression in every row"})
            \cup (IF SameIndex(S, e) THEN {} ELSE {"evaluations have the index of the frame"})
            \cup (IF e.stored THEN {} ELSE {"the result is stored where it was asked to go"})
      [] e.op = "pivot" ->
            IF PivotFilled(e, PivotExpected(S, e), PivotObserved(e)) \/ \E c \in PivotCells(S, e) : IsAny(c[4]) THEN {}
            ELSE {"pivoting is that of the plain frame"}
      [] e.op = "members" ->
            IF Members(S, e) = Range(e.v) THEN {} ELSE {"a link lists what can be looked up through it"}
      [] e.op = "export" -> IF e.same THEN {} ELSE {"exported like a plain frame"}
      [] e.op = "summary" ->
            (IF {SummaryRow(S, e.f, n) : n \in DOMAIN S.frames[e.f].links} = Range(e.table) THEN {}
             ELSE {"the summary describes the links in force"})
            \cup (IF SummaryPre(S, e.f, e) THEN {} ELSE {"the summary says which links are indexed"})
            \cup (IF Range(e.dir) = {n \in DOMAIN S.frames[e.f].links : S.frames[e.f].links[n].ident} THEN {}
                  ELSE {"links whose names are identifiers are attributes"})
      [] e.op = "target" ->
            IF e.target = S.frames[e.f].links[e.name].target THEN {} ELSE {"the target of a link is the frame it was made to"}
      [] OTHER -> {}

\* The links that every frame has after the operation
JudgeLinks(S, e) ==
    UNION {IF Range(e.after[f]) = DOMAIN S.frames[f].links THEN {} ELSE {"the links of a frame are those in force"}
           : f \in DOMAIN e.after}

FAllowed(res, e) ==
    \/ e.res = "ok" /\ "ok" \in res
    \/ e.res # "ok" /\ ("error" \in res \/ \E c \in Range(e.errs) : c \in res)

JudgeFrame(S, e) ==
    LET d == DoFrame(S, e)
        allowed == FAllowed(d.res, e)
        st == IF allowed /\ e.res = "ok" THEN d.st ELSE S
    IN [st |-> st,
        bad |-> (IF allowed THEN {} ELSE {"outcome " \o e.res \o " of " \o e.op})
                \cup (IF allowed /\ e.res = "ok" THEN JudgeFrameOk(S, d, e) ELSE {})
                \cup JudgeLinks(st, e)
                \cup (IF e.intact THEN {} ELSE {"frames, and what the caller passed in, are left as they were"})]
=============================================================================

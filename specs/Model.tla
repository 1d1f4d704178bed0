------------------------------- MODULE Model --------------------------------
(* A choice model as its user sees it, and what each of its operations does.  *)
(*                                                                            *)
(* State of one model:                                                        *)
(*   nodes   the choices in order, as records [path, scale]; a path is the    *)
(*           sequence of names from the top                                   *)
(*   du      [set, v] the decision units (labels are sequences of values)     *)
(*   scope   name -> symbol                                                   *)
(*   exprs   the expressions in order, [raw, ast, flt, grp]                   *)
(*   cached  [set, v] the partial utilities, one row per decision unit        *)
(*   prec    the precision, 4 or 8                                            *)
(*   debug   the label of the decision unit to be debugged, or <<>>           *)
(*                                                                            *)
(* Do(S, e) gives the reaction to operation e in state S: a record            *)
(*   [st: the next state if it succeeds, res: the outcomes that are allowed,  *)
(*    obs: what has to be observed]                                           *)
(* and Judge compares it with what the implementation did. The same Do is     *)
(* used by the exhaustively checked specifications and for checking traces.   *)
EXTENDS Semantics

NoVal == [set |-> FALSE, v |-> <<>>]
Val(x) == [set |-> TRUE, v |-> x]
EmptyModel == [nodes |-> <<>>, du |-> NoVal, scope |-> NoFn, exprs |-> <<>>, cached |-> NoVal,
               prec |-> 8, debug |-> <<>>]
Opt(e, field, default) == IF field \in DOMAIN e THEN e[field] ELSE default

Without(f, names) == [n \in DOMAIN f \ names |-> f[n]]
Put(f, n, v) == (n :> v) @@ f

-----------------------------------------------------------------------------
\* The tree of choices
IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
ValidName(name) == name # Star /\ \A n \in DOMAIN name[2] : name[2][n] # 46
ValidScale(scale) == scale[2] > 0 /\ scale[2] <= scale[3]

AddNode(nodes, path, scale) ==
    Append(SelectSeq(nodes, LAMBDA n : ~IsPrefixOf(path, n.path)), [path |-> path, scale |-> scale])

RECURSIVE AddNodes(_, _, _)
\* Adds choices one after another, up to the first one that is invalid
AddNodes(nodes, names, scales) ==
    IF names = <<>> \/ ~ValidName(names[1]) \/ ~ValidScale(scales[1]) THEN nodes
    ELSE AddNodes(AddNode(nodes, <<names[1]>>, scales[1]), Tail(names), Tail(scales))

RECURSIVE MaxLen(_)
MaxLen(nodes) == IF nodes = <<>> THEN 0
                 ELSE LET m == MaxLen(Tail(nodes)) l == Len(Head(nodes).path) IN IF l > m THEN l ELSE m
Depth(M) == MaxLen(M.nodes)
NChildren(M, path) ==
    Cardinality({n \in DOMAIN M.nodes : Len(M.nodes[n].path) = Len(path) + 1 /\ IsPrefixOf(path, M.nodes[n].path)})
TreeOk(M) == /\ NChildren(M, <<>>) >= 2
             /\ \A n \in DOMAIN M.nodes : NChildren(M, M.nodes[n].path) # 1
Pad(path, depth) == [p \in 1..depth |-> IF p <= Len(path) THEN path[p] ELSE Dot]
Choices(M) == LET d == Depth(M) IN [n \in DOMAIN M.nodes |-> Pad(M.nodes[n].path, d)]
IsElemental(M, n) == NChildren(M, M.nodes[n].path) = 0
Elemental(M) == LET d == Depth(M) IN
    [n \in DOMAIN SelectSeq([k \in DOMAIN M.nodes |-> k], LAMBDA k : IsElemental(M, k)) |->
        Pad(M.nodes[SelectSeq([k \in DOMAIN M.nodes |-> k], LAMBDA k : IsElemental(M, k))[n]].path, d)]

-----------------------------------------------------------------------------
\* Expressions
Reserved(name) == name \in {"NAN", "NEG_INF", "OUT"}
Simple(exprs) == UNION {SimpleNames(exprs[n].ast) : n \in DOMAIN exprs}
Chained(exprs) == UNION {ChainNames(exprs[n].ast) : n \in DOMAIN exprs}
Accepted(M, x) ==
    /\ x.nat <= 1                            \* at most one "@"
    /\ ~BadShape(x.ast)
    /\ LET all == Append(M.exprs, x) IN Simple(all) \cap Chained(all) = {}
InGroup(M, g) == SelectSeq(M.exprs, LAMBDA x : x.grp = g)
Applicable(M, g) == IF g = "" THEN M.exprs ELSE InGroup(M, g)
\* In the order of evaluation: the groups come last, in the order in which they were made
RECURSIVE Grouped(_)
Grouped(exprs) ==
    IF exprs = <<>> THEN <<>>
    ELSE LET g == Head(exprs).grp IN
         SelectSeq(exprs, LAMBDA x : x.grp = g) \o Grouped(SelectSeq(exprs, LAMBDA x : x.grp # g))
AsEvaluated(exprs) == SelectSeq(exprs, LAMBDA x : x.grp = "") \o Grouped(SelectSeq(exprs, LAMBDA x : x.grp # ""))
Groups(M) == {M.exprs[n].grp : n \in DOMAIN M.exprs} \ {""}
Needed(exprs) == {n \in Simple(exprs) \cup Chained(exprs) : ~Reserved(n)}

Ready(M, g) ==
    /\ TreeOk(M)
    /\ M.du.set
    /\ \A n \in Needed(Applicable(M, g)) : n \in DOMAIN M.scope /\ M.scope[n].has

\* Choices named by filters and dict literals exist
KeyKnown(key, chs) ==
    LET p == StarAt(key)
        base == IF p = 0 THEN key ELSE SubSeq(key, 1, p - 1)
    IN /\ base # <<>>
       /\ (Len(chs[1]) = 1 => p = 0)
       /\ \E n \in DOMAIN chs : Fits(base, chs[n])
NamesKnown(M, exprs) ==
    LET chs == Choices(M) IN
    \A n \in DOMAIN exprs :
        /\ exprs[n].flt # <<>> => \E k \in DOMAIN chs : Fits(exprs[n].flt, chs[k])
        /\ \A key \in DictKeys(exprs[n].ast) : KeyKnown(key, chs)

\* Names are used as what they stand for: tables by attributes which they have, other symbols plainly
AsTable(S, M, name, path) == M.scope[name].k = "table" /\ path # <<>>
NamesFit(S, M, exprs) ==
    \A n \in DOMAIN exprs :
        /\ \A s \in SimpleNames(exprs[n].ast) : Reserved(s) \/ M.scope[s].k # "table"
        /\ \A a \in Attrs(exprs[n].ast) :
              /\ AsTable(S, M, a[1], Tail(a))
              /\ PathOk(S.frames, M.scope[a[1]].fid, Front(Tail(a)), FALSE)
              /\ Last(a) \in Range(S.frames[PathTarget(S.frames, M.scope[a[1]].fid, Front(Tail(a)))].cols)
        /\ \A a \in Aggs(exprs[n].ast) :
              AsTable(S, M, a[1], Tail(a)) /\ PathOk(S.frames, M.scope[a[1]].fid, Tail(a), TRUE)

-----------------------------------------------------------------------------
\* Utilities
RECURSIVE SumExprs(_, _, _)
SumExprs(exprs, env, node) ==
    IF exprs = <<>> THEN IntV(0)
    ELSE LET x == Head(exprs)
             v == IF x.flt = <<>> \/ Fits(x.flt, node) THEN Eval(x.ast, env) ELSE IntV(0)
         IN Add(v, SumExprs(Tail(exprs), env, node))

Utilities(S, M, exprs) ==
    LET chs == Choices(M) IN
    [i \in DOMAIN M.du.v |-> [j \in DOMAIN chs |->
        LET env == [mode |-> "cell", frames |-> S.frames, cls |-> S.cls, syms |-> M.scope, i |-> i, j |-> j, ch |-> chs]
            x == SumExprs(exprs, env, chs[j])
        IN IF M.cached.set THEN Add(M.cached.v[i][j], x) ELSE x]]

\* The utilities of one decision unit after each expression
RunningTotals(S, M, exprs, i) ==
    LET chs == Choices(M) xs == AsEvaluated(exprs) IN
    [k \in DOMAIN xs |-> [j \in DOMAIN chs |->
        LET env == [mode |-> "cell", frames |-> S.frames, cls |-> S.cls, syms |-> M.scope, i |-> i, j |-> j, ch |-> chs]
            x == SumExprs(SubSeq(xs, 1, k), env, chs[j])
        IN IF M.cached.set THEN Add(M.cached.v[i][j], x) ELSE x]]

CellExists(U, P(_)) == \E i \in DOMAIN U : \E j \in DOMAIN U[i] : P(U[i][j])
TooBig(v) == IsNum(v) /\ (v[2] \div v[3] > 600 \/ v[2] \div v[3] < -600)
Unsure(v) == IsAny(v) \/ TooBig(v)
\* A choice can be chosen when it, and every nest around it, has a utility above minus infinity
Feasible(M, row, n) ==
    /\ IsElemental(M, n)
    /\ \A k \in DOMAIN M.nodes : IsPrefixOf(M.nodes[k].path, M.nodes[n].path) => row[k] # NInf
RowFeasible(M, row) == \E n \in DOMAIN M.nodes : Feasible(M, row, n)

-----------------------------------------------------------------------------
\* Assigning data: [ok, sym]
Pos(seq, x) == IF \E n \in DOMAIN seq : seq[n] = x THEN CHOOSE n \in DOMAIN seq : seq[n] = x ELSE 0
AllIn(labels, ctx) == \A n \in DOMAIN labels : \E k \in DOMAIN ctx : ctx[k] = labels[n]
Transposed(v, ncols) == [c \in 1..ncols |-> [r \in DOMAIN v |-> v[r][c]]]

AssignMatrix(M, s, d) ==
    LET rows == M.du.v
        cols == Choices(M)
        idx  == IF s.o = 0 THEN d.idx ELSE d.cols
        cs   == IF s.o = 0 THEN d.cols ELSE d.idx
        v    == IF s.o = 0 THEN d.v ELSE Transposed(d.v, Len(d.cols))
        ok   == /\ idx = rows \/ (s.rrow /\ AllIn(idx, rows))
                /\ cs = cols \/ (s.rcol /\ AllIn(cs, cols))
    IN [ok |-> ok,
        d |-> IF ~ok THEN <<>>
              ELSE [i \in DOMAIN rows |-> [j \in DOMAIN cols |->
                       LET p == Pos(idx, rows[i]) q == Pos(cs, cols[j]) IN
                       IF p = 0 \/ q = 0 THEN s.fill ELSE v[p][q]]]]

Assign(S, M, s, d) ==
    LET ctx == IF s.k = "number" THEN <<>> ELSE IF s.o = 0 THEN M.du.v ELSE Choices(M)
        fail == [ok |-> FALSE, sym |-> s]
    IN CASE s.k = "number" -> IF d.t = "scalar" THEN [ok |-> TRUE, sym |-> [s EXCEPT !.has = TRUE, !.d = IF IsText(d.v) THEN d.v ELSE AsNum(d.v)]] ELSE fail
         [] s.k = "vector" ->
              IF (d.t = "series" /\ d.idx = ctx /\ d.dt # "t") \/ (d.t = "array" /\ Len(d.v) = Len(ctx))
              THEN [ok |-> TRUE, sym |-> [s EXCEPT !.has = TRUE, !.d = d.v]] ELSE fail
         [] s.k = "table" ->
              IF d.t = "table" /\ S.frames[d.fid].idx = ctx
                 /\ (\A n \in DOMAIN s.mand : s.mand[n] \in Range(S.frames[d.fid].cols))
                 /\ (s.links \/ ~S.frames[d.fid].ldf)
              THEN [ok |-> TRUE, sym |-> [s EXCEPT !.has = TRUE, !.fid = d.fid, !.rows = [n \in DOMAIN ctx |-> n]]]
              ELSE fail
         [] s.k = "matrix" ->
              IF d.t = "frame"
              THEN LET a == AssignMatrix(M, s, d) IN [ok |-> a.ok, sym |-> IF a.ok THEN [s EXCEPT !.has = TRUE, !.d = a.d] ELSE s]
              ELSE fail
         [] OTHER -> fail

NewSym(k, o) == [k |-> k, o |-> o, has |-> FALSE, d |-> <<>>, fid |-> "", rows |-> <<>>, fill |-> IntV(0),
                 rrow |-> TRUE, rcol |-> TRUE, mand |-> <<>>, links |-> TRUE]
Emptied(s) == IF s.k = "number" THEN s ELSE [s EXCEPT !.has = FALSE, !.d = <<>>, !.fid = "", !.rows = <<>>]

\* The data of a symbol for some of the rows only
Pick(seq, keep) == [n \in DOMAIN keep |-> seq[keep[n]]]
Subset(s, keep) ==
    IF ~s.has THEN s
    ELSE CASE s.k = "vector" /\ s.o = 0 -> [s EXCEPT !.d = Pick(s.d, keep)]
           [] s.k = "matrix" -> [s EXCEPT !.d = Pick(s.d, keep)]
           [] s.k = "table" /\ s.o = 0 -> [s EXCEPT !.rows = Pick(s.rows, keep)]
           [] OTHER -> s

-----------------------------------------------------------------------------
\* Partial utilities from a table: [ok, v]
AddPartial(M, e) ==
    LET rows == M.du.v
        cols == Choices(M)
        ok == /\ e.idx = rows \/ (e.rr /\ AllIn(e.idx, rows))
              /\ e.cols = cols \/ (e.rc /\ AllIn(e.cols, cols))
    IN [ok |-> ok,
        v |-> IF ~ok THEN <<>>
              ELSE [i \in DOMAIN rows |-> [j \in DOMAIN cols |->
                      LET p == Pos(e.idx, rows[i]) q == Pos(e.cols, cols[j])
                          x == IF p = 0 \/ q = 0 THEN IntV(0) ELSE e.v[p][q]
                      IN IF M.cached.set THEN Add(M.cached.v[i][j], x) ELSE x]]]

-----------------------------------------------------------------------------
(* Reactions. Outcomes are "ok", the name of an exception class, or "error"   *)
(* for an exception of any class.                                             *)
Out(S, res) == [st |-> S, res |-> res, u |-> <<>>, picks |-> FALSE]
WithModel(S, m, M) == [S EXCEPT !.models = Put(S.models, m, M)]

\* Nothing is promised when the decision unit to be debugged isn't there
Undebuggable(M) == IF M.debug = <<>> \/ (M.du.set /\ M.debug \in Range(M.du.v)) THEN {} ELSE {"KeyError"}

RunOutcome(S, M, g, check, clear) ==
    IF ~Ready(M, g) \/ (g # "" /\ g \notin Groups(M))
    THEN [res |-> (IF ~Ready(M, g) THEN {"ModelNotReadyError"} ELSE {})
                  \cup (IF g # "" /\ g \notin Groups(M) THEN {"KeyError"} ELSE {}), u |-> <<>>]
    ELSE LET xs == Applicable(M, g) IN
         IF ~NamesKnown(M, xs) \/ ~NamesFit(S, M, xs) THEN [res |-> {"error"}, u |-> <<>>]
         ELSE LET U == Utilities(S, M, xs)
                  bad == \/ CellExists(U, IsNaN)
                         \/ (check /\ \E i \in DOMAIN U : ~RowFeasible(M, U[i]))
                  big == CellExists(U, LAMBDA v : v = PInf)
                  unsure == CellExists(U, Unsure)
              IN [res |-> IF bad THEN {"UtilityBoundsError"}
                          ELSE IF unsure \/ (big /\ Depth(M) > 1) THEN {"ok", "UtilityBoundsError"}
                          ELSE IF big THEN {"UtilityBoundsError"} ELSE {"ok"},
                  u |-> U]

Do(S, e) ==
    LET M == IF e.op = "new" THEN EmptyModel ELSE S.models[e.m]
        upd(N) == WithModel(S, e.m, N)
    IN
    CASE e.op = "new" -> IF e.precision \in {4, 8}
                         THEN Out(upd([EmptyModel EXCEPT !.prec = e.precision, !.debug = Opt(e, "debug", <<>>)]), {"ok"})
                         ELSE Out(S, {"ValueError"})
      [] e.op = "set_precision" ->
            IF e.v \in {4, 8} THEN Out(upd([M EXCEPT !.prec = e.v]), {"ok"}) ELSE Out(S, {"ValueError"})
      [] e.op = "add_choice" ->
            IF ValidName(e.name) /\ ValidScale(e.scale)
            THEN Out(upd([M EXCEPT !.nodes = AddNode(M.nodes, Append(e.parent, e.name), e.scale), !.cached = NoVal]), {"ok"})
            ELSE Out(S, {"error"})
      [] e.op = "add_choices" ->
            LET alike == Len(e.names) = Len(e.scales)
                ok == alike /\ \A n \in DOMAIN e.names : ValidName(e.names[n]) /\ ValidScale(e.scales[n])
                \* What comes before the first invalid one is added
                some == alike /\ e.names # <<>> /\ ValidName(e.names[1]) /\ ValidScale(e.scales[1])
            IN Out(IF some THEN upd([M EXCEPT !.nodes = AddNodes(M.nodes, e.names, e.scales), !.cached = NoVal]) ELSE S,
                   IF ok THEN {"ok"} ELSE {"error"})
      [] e.op = "set_scale" ->
            IF ValidScale(e.scale)
            THEN Out(upd([M EXCEPT !.nodes = [n \in DOMAIN M.nodes |-> IF M.nodes[n].path = e.path
                                              THEN [M.nodes[n] EXCEPT !.scale = e.scale] ELSE M.nodes[n]]]), {"ok"})
            ELSE Out(S, {"error"})
      [] e.op = "set_du" ->
            Out(upd([M EXCEPT !.du = Val(e.du), !.cached = NoVal,
                              !.scope = [n \in DOMAIN M.scope |-> Emptied(M.scope[n])]]), {"ok"})
      [] e.op = "declare" ->
            IF Reserved(e.name) THEN Out(S, {"SyntaxError"})
            ELSE IF e.k # "number" /\ e.o \notin {0, 1} THEN Out(S, {"error"})
            ELSE LET s == [NewSym(e.k, e.o) EXCEPT !.fill = e.fill, !.rrow = e.rrow, !.rcol = e.rcol, !.mand = e.mand,
                                                   !.links = e.links]
                 IN Out(upd([M EXCEPT !.scope = Put(M.scope, e.name, s)]), {"ok"})
      [] e.op = "assign" ->
            IF e.name \notin DOMAIN M.scope THEN Out(S, {"KeyError"})
            ELSE LET s == M.scope[e.name]
                     needdu == s.k = "matrix" \/ (s.k \in {"vector", "table"} /\ s.o = 0)
                     needtree == s.k = "matrix" \/ (s.k \in {"vector", "table"} /\ s.o = 1)
                 IN IF (needdu /\ ~M.du.set) \/ (needtree /\ ~TreeOk(M)) THEN Out(S, {"error"})
                    ELSE LET a == Assign(S, M, s, e.data)
                         IN IF a.ok THEN Out(upd([M EXCEPT !.scope = Put(M.scope, e.name, a.sym)]), {"ok"})
                            ELSE Out(S, {"error"})
      [] e.op = "append" ->
            IF Accepted(M, e.x) THEN Out(upd([M EXCEPT !.exprs = Append(M.exprs, e.x)]), {"ok"})
            ELSE Out(S, {"SyntaxError", "NotImplementedError"})
      [] e.op = "clear_exprs" -> Out(upd([M EXCEPT !.exprs = <<>>]), {"ok"})
      [] e.op = "drop_group" ->
            IF e.g \in Groups(M) THEN Out(upd([M EXCEPT !.exprs = SelectSeq(M.exprs, LAMBDA x : x.grp # e.g)]), {"ok"})
            ELSE Out(S, {"KeyError"})
      [] e.op = "clear_scope" -> Out(upd([M EXCEPT !.scope = NoFn]), {"ok"})
      [] e.op = "validate" ->
            LET all == [tree |-> TRUE, du |-> TRUE, exprs |-> TRUE, assign |-> TRUE]
                fl == Opt(e, "flags", all)
                xs == Applicable(M, e.g)
                symbols == fl.exprs \/ fl.assign     \* Whether there is something to check about expressions
                unknown == e.g # "" /\ e.g \notin Groups(M)
                undeclared == \E n \in Needed(xs) : n \notin DOMAIN M.scope
                unassigned == \E n \in Needed(xs) : n \in DOMAIN M.scope /\ ~M.scope[n].has
                sure == \/ fl.tree /\ ~TreeOk(M)
                        \/ fl.du /\ ~M.du.set
                        \/ fl.exprs /\ undeclared
                        \/ fl.assign /\ unassigned
                \* Whether undeclared symbols count when only the assignments are to be checked is left open
                maybe == fl.assign /\ ~fl.exprs /\ undeclared
            IN Out(S, IF unknown
                      THEN {"KeyError"} \cup (IF sure THEN {"ModelNotReadyError"} ELSE {}) \cup (IF symbols THEN {} ELSE {"ok"})
                      ELSE IF sure THEN {"ModelNotReadyError"}
                      ELSE IF maybe THEN {"ok", "ModelNotReadyError"} ELSE {"ok"})
      [] e.op = "plus" -> Out(S, {"ok"})
      [] e.op \in {"run", "discrete"} ->
            LET r == RunOutcome(S, M, e.g, e.check, e.clear)
                cleared == [M EXCEPT !.scope = NoFn]
                \* The scope is cleared once the utilities are known, before it is known whether a choice can be made
                ended == IF e.clear /\ ("ok" \in r.res \/ (r.u # <<>> /\ ~CellExists(r.u, IsNaN))) THEN cleared ELSE M
            IN [st |-> upd(ended), res |-> r.res \cup Undebuggable(M), u |-> r.u, picks |-> e.op = "discrete"]
      [] e.op = "preval" ->
            LET r == RunOutcome(S, M, e.g, FALSE, FALSE) IN
            IF r.u = <<>> THEN Out(S, r.res)
            ELSE IF CellExists(r.u, IsNaN) THEN Out(S, {"UtilityBoundsError"} \cup Undebuggable(M))
            ELSE LET others == SelectSeq(M.exprs, LAMBDA x : x.grp # e.g)
                     gone == IF e.cleanup THEN Needed(InGroup(M, e.g)) \ Needed(others) ELSE {}
                 IN Out(upd([M EXCEPT !.cached = Val(r.u), !.scope = Without(M.scope, gone),
                                      !.exprs = IF e.drop THEN others ELSE M.exprs]), {"ok"} \cup Undebuggable(M))
      [] e.op = "partial" ->
            IF ~TreeOk(M) \/ ~M.du.set THEN Out(S, {"ModelNotReadyError"})
            ELSE LET a == AddPartial(M, e) IN
                 IF a.ok THEN Out(upd([M EXCEPT !.cached = Val(a.v)]), {"ok"}) ELSE Out(S, {"error"})
      [] e.op = "copy" ->
            LET N == [nodes |-> M.nodes, prec |-> M.prec, debug |-> M.debug,
                      du |-> IF e.o_du \/ e.o_assigned THEN M.du ELSE NoVal,
                      scope |-> IF e.o_assigned THEN M.scope
                                ELSE IF e.o_declared
                                THEN [n \in DOMAIN M.scope |-> [Emptied(M.scope[n]) EXCEPT !.has = FALSE, !.d = <<>>]]
                                ELSE NoFn,
                      exprs |-> IF e.o_exprs THEN M.exprs ELSE <<>>,
                      cached |-> IF e.o_utils THEN M.cached ELSE NoVal]
            IN Out(WithModel(S, e.n, N), {"ok"})
      [] e.op = "subset" ->
            IF ~M.du.set THEN Out(S, {"ModelNotReadyError"})
            ELSE IF e.idx # M.du.v THEN Out(S, {"error"})
            ELSE LET keep == SelectSeq([n \in DOMAIN M.du.v |-> n], LAMBDA n : e.mask[n])
                     N == [nodes |-> M.nodes, prec |-> M.prec, debug |-> M.debug, du |-> Val(Pick(M.du.v, keep)),
                           scope |-> [n \in DOMAIN M.scope |-> Subset(M.scope[n], keep)],
                           exprs |-> M.exprs,
                           cached |-> IF M.cached.set THEN Val(Pick(M.cached.v, keep)) ELSE NoVal]
                 IN Out(WithModel(S, e.n, N), {"ok"})
      [] e.op = "look" -> Out(S, {"ok"})

-----------------------------------------------------------------------------
(* Verdicts: the set of the clauses that an observed operation breaks.        *)
Allowed(res, e) ==
    \/ e.res = "ok" /\ "ok" \in res
    \/ e.res # "ok" /\ ("error" \in res \/ \E c \in Range(e.errs) : c \in res)

SameMatrix(U, obs) == \A i \in DOMAIN U : \A j \in DOMAIN U[i] : Unsure(U[i][j]) \/ Match(U[i][j], obs[i][j])
\* With an infeasible nest nothing can be said about the nest's own utility
CellOk(M, U, obs, i, j) ==
    \/ Unsure(U[i][j])
    \/ Match(U[i][j], obs[i][j])
    \/ obs[i][j] = <<"unk">> /\ \A n \in DOMAIN M.nodes :
            (n # j /\ IsPrefixOf(M.nodes[j].path, M.nodes[n].path) /\ IsElemental(M, n)) => ~Feasible(M, U[i], n) \/ U[i][j] = NInf
    \/ obs[i][j] = <<"unk">> /\ \E n \in DOMAIN M.nodes : Unsure(U[i][n])

\* Symbols are only known by the names that aren't reserved
SymbolsOf(exprs, o) ==
    /\ {n \in Range(o[1]) : ~Reserved(n)} = {n \in Simple(exprs) : ~Reserved(n)}
    /\ Range(o[2]) = Chained(exprs)
RawsOf(exprs) == [n \in DOMAIN exprs |-> exprs[n].raw]

JudgeRun(S, d, e) ==
    LET M == S.models[e.m] IN
    (IF e.rows = M.du.v THEN {} ELSE {"result rows are the decision units"})
    \cup (IF d.picks THEN {}
          ELSE (IF e.cols = Choices(M) THEN {} ELSE {"result columns are the choices"})
               \cup (IF e.pcols = Elemental(M) THEN {} ELSE {"probability columns are the elemental choices"})
               \cup (IF Len(e.u) = Len(d.u) /\ (\A i \in DOMAIN d.u : Len(e.u[i]) = Len(d.u[i])) THEN
                        (IF \A i \in DOMAIN d.u : \A j \in DOMAIN d.u[i] : CellOk(M, d.u, e.u, i, j) THEN {}
                         ELSE {"utilities are the partial utilities plus all applicable expressions"})
                     ELSE {"one utility per decision unit and choice"}))
    \cup (IF ~d.picks \/ CellExists(d.u, Unsure) THEN {}
          ELSE IF Len(e.chosen) = Len(d.u)
                  /\ \A i \in DOMAIN d.u : \A n \in DOMAIN e.chosen[i] :
                        LET p == Pos(Choices(M), e.chosen[i][n]) IN p # 0 /\ Feasible(M, d.u[i], p)
          THEN {} ELSE {"chosen alternatives are elemental and feasible"})

\* The running totals of the decision unit to be debugged
JudgeDebug(S, e) ==
    LET M == S.models[e.m] i == Pos(M.du.v, M.debug)
        xs == AsEvaluated(Applicable(M, e.g))
        want == RunningTotals(S, M, Applicable(M, e.g), i) IN
    IF M.debug = <<>> THEN {}
    ELSE IF /\ e.dbg.raws = RawsOf(xs)
            /\ (xs = <<>> \/ e.dbg.cols = Choices(M))
            /\ Len(e.dbg.v) = Len(want) /\ SameMatrix(want, e.dbg.v)
    THEN {} ELSE {"the debugged unit has the running totals of its utilities"}

JudgePlus(S, e) ==
    LET xs == S.models[e.m].exprs \o S.models[e.n].exprs
        both == [EmptyModel EXCEPT !.exprs = xs] IN
    (IF /\ e.sum[1] = RawsOf(InGroup(both, ""))
        /\ {e.sum[2][n][1] : n \in DOMAIN e.sum[2]} = Groups(both)
        /\ \A n \in DOMAIN e.sum[2] : e.sum[2][n][2] = RawsOf(InGroup(both, e.sum[2][n][1]))
     THEN {} ELSE {"added groups have the expressions of both"})
    \cup (IF SymbolsOf(xs, e.sum[3]) THEN {} ELSE {"added groups have the symbols of both"})

\* The nodes that the program still has
NodeOk(M, o) ==
    LET kids == {n \in DOMAIN M.nodes : Len(M.nodes[n].path) = Len(o.path) + 1 /\ IsPrefixOf(o.path, M.nodes[n].path)}
        below == SelectSeq(M.nodes, LAMBDA n : IsPrefixOf(o.path, n.path)) IN
    /\ o.level = Len(o.path)
    /\ o.full = o.path
    /\ Range(o.kids) = {Last(M.nodes[n].path) : n \in kids} /\ Len(o.kids) = Cardinality(kids)
    /\ o.nkids = Cardinality(kids) /\ o.parent = (kids # {})
    /\ o.deepest = MaxLen(below)
    /\ \E n \in DOMAIN M.nodes : M.nodes[n].path = o.path /\ M.nodes[n].scale = o.scale

JudgeLook(S, e) ==
    LET M == S.models[e.m] IN
    (IF \A n \in DOMAIN e.nodes : NodeOk(M, e.nodes[n]) THEN {} ELSE {"nodes have the place in the tree where they were added"})
    \cup (IF e.precision = M.prec THEN {} ELSE {"the precision is the one that was set"})
    \cup
    (IF ~e.choices_ok THEN (IF TreeOk(M) THEN {"the choices of a complete tree are available"} ELSE {})
     ELSE IF e.choices = Choices(M) THEN {} ELSE {"choices are the added ones in order"})
    \cup (IF ~e.elemental_ok THEN (IF TreeOk(M) THEN {"the elemental choices of a complete tree are available"} ELSE {})
          ELSE IF e.elemental = Elemental(M) THEN {} ELSE {"elemental choices are those without children"})
    \cup (IF e.depth = Depth(M) \/ M.nodes = <<>> THEN {} ELSE {"depth is the deepest level"})

\* What is visible of every model after every operation
JudgeState(S, e) ==
    UNION { LET M == S.models[m] o == e.after[m] IN
            (IF Range(o.decl) = DOMAIN M.scope THEN {} ELSE {"declared symbols"})
            \cup (IF /\ o.exl[1] = RawsOf(InGroup(M, ""))
                     /\ \A n \in DOMAIN o.exl[2] :
                          IF o.exl[2][n][1] \in Groups(M) THEN o.exl[2][n][2] = RawsOf(InGroup(M, o.exl[2][n][1]))
                          ELSE o.exl[2][n][2] = <<"none">>
                  THEN {} ELSE {"expressions"})
            \cup (IF SymbolsOf(M.exprs, o.exl[3]) THEN {} ELSE {"symbols of the expressions"})
            : m \in DOMAIN e.after }

JudgeModel(S, e) ==
    LET d == Do(S, e)
        allowed == Allowed(d.res, e)
        \* A failed batch of additions keeps what was added before the failure
        st == IF e.res = "ok" \/ e.op = "add_choices" THEN d.st
              ELSE IF e.op \in {"run", "discrete"} /\ "UtilityBoundsError" \in Range(e.errs) THEN d.st ELSE S
    IN [st |-> IF allowed THEN st ELSE S,
        bad |-> (IF allowed THEN {} ELSE {"outcome " \o e.res \o " of " \o e.op})
                \cup (IF allowed /\ e.res = "ok" /\ e.op \in {"run", "discrete"} THEN JudgeRun(S, d, e) ELSE {})
                \cup (IF allowed /\ e.res = "ok" /\ e.op \in {"run", "discrete", "preval"} THEN JudgeDebug(S, e) ELSE {})
                \cup (IF e.op = "look" THEN JudgeLook(S, e) ELSE {})
                \cup (IF e.op = "plus" /\ e.res = "ok" THEN JudgePlus(S, e) ELSE {})
                \cup (IF allowed THEN JudgeState(st, e) ELSE {})
                \cup (IF e.intact THEN {} ELSE {"the user's data is left as it was"})]
=============================================================================

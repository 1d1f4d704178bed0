------------------------------ MODULE MCLinks -------------------------------
(* Two frames with all possible keys, linked in both directions: which links  *)
(* there can be, what looking up through them gives, and the statistics of    *)
(* the rows that match (C14, C15, C18).                                       *)
EXTENDS MCBase, Seqs
CONSTANTS Size,     \* The largest number of rows of the frames
          Ordered   \* Whether the rows of the second frame only come in the order of their keys

KeysOf(n, vals) == [1..n -> vals]
Sorted(k) == \A r \in 1..(Len(k) - 1) : ~NumLess(k[r + 1], k[r])
Up(k) == [n \in 1..k |-> <<IntV(n)>>]
FrameA(k) == FrameOp("a", <<"k", "v">>, [k |-> "f", v |-> "i"], [k |-> k, v |-> [n \in DOMAIN k |-> IntV(10 + n)]], Up(Len(k)), <<"i0">>)
FrameB(k) == FrameOp("b", <<"w", "k", "v">>, [k |-> "f", v |-> "i", w |-> "f"],
                     [k |-> k, v |-> [n \in DOMAIN k |-> IntV(20 + n)],
                      w |-> [n \in DOMAIN k |-> IF n = 2 THEN NaN ELSE <<"n", 2 * n - 1, 2>>]], Up(Len(k)), <<"i0">>)
On == [NoArgs EXCEPT !.on = <<Name("k")>>]
Both == [NoArgs EXCEPT !.on_self = <<Name("k")>>, !.on_other = <<Name("k")>>]
ToIndex == [NoArgs EXCEPT !.on_self = <<Name("k")>>]
FromIndex == [NoArgs EXCEPT !.on_other = <<Name("k")>>]
Level == [NoArgs EXCEPT !.levels = <<Name("i0")>>]
Ends == {<<"n", 1, 1>>, <<"n", 2, 1>>, NaN}
Starts == LET as == UNION {KeysOf(n, Ends) : n \in 1..Size}
              bs == {k \in UNION {KeysOf(n, {IntV(1), IntV(2), IntV(3)}) : n \in 0..Size} : Ordered => Sorted(k)}
          IN Listed({<<FrameA(x), FrameB(y)>> : x \in as, y \in bs})
Half0 == <<"n", 1, 2>>
Ops == << LookupOp("a", <<"z", "v">>), LookupOp("a", <<"z", "w">>), LookupOp("b", <<"y", "v">>), LookupOp("a", <<"z", "y", "v">>),
          LookupOp("b", <<"y", "z", "w">>),
          AggOp("a", <<"z">>, "count", <<"sym", "w">>, Zero), AggOp("a", <<"z">>, "sum", <<"bin", "+", <<"sym", "v">>, <<"sym", "w">>>>, Zero),
          AggOp("a", <<"z">>, "first", <<"sym", "w">>, Zero), AggOp("a", <<"z">>, "last", <<"sym", "v">>, Zero),
          AggOp("a", <<"z">>, "max", <<"col", "v">>, Zero), AggOp("a", <<"z">>, "min", <<"sym", "w">>, Zero),
          AggOp("a", <<"z">>, "mean", <<"sym", "w">>, Zero),
          AggOp("a", <<"z">>, "nth", <<"sym", "w">>, IntV(1)), AggOp("a", <<"z">>, "quantile", <<"sym", "v">>, Half0),
          AggOp("b", <<"y">>, "sum", <<"sym", "v">>, Zero), AggOp("b", <<"y", "z">>, "sum", <<"sym", "v">>, Zero),
          AggOp("a", <<"z", "y">>, "sum", <<"sym", "v">>, Zero),
          LinkOp("a", "b", "z", On, TRUE), LinkOp("a", "b", "z", ToIndex, FALSE), LinkOp("a", "b", "z", FromIndex, FALSE),
          LinkOp("a", "b", "z", Level, FALSE), LinkOp("b", "a", "y", Both, FALSE), LinkOp("b", "a", "y", ToIndex, TRUE) >>
Observers == <<1, 2, 6, 7, 8>>
Enabled(s, e) ==
    CASE e.op = "link" -> e.name \notin DOMAIN s.frames[e.f].links /\ (e.f = "a" => s.frames["b"].links = NoFn)
      [] e.op \in {"lookup", "agg"} -> LET path == IF e.op = "agg" THEN e.path ELSE Front(e.names) IN
            /\ path[1] \in DOMAIN s.frames[e.f].links
            /\ Len(path) > 1 => path[2] \in DOMAIN s.frames[IF e.f = "a" THEN "b" ELSE "a"].links
            /\ e.op = "lookup" \/ e.func = "count" \/ PathOk(s.frames, e.f, path, TRUE)
      [] OTHER -> TRUE
Prepare(s, e) == e
VARIABLES S, start
INSTANCE Explore

F == S.frames["a"]
T == S.frames["b"]
HasZ == "z" \in DOMAIN F.links
Z == F.links["z"]
Same(i, j) == Z.skeys[i] = Z.okeys[j] /\ ~IsNaN(Z.skeys[i][1])
\* A link that needs no aggregation has at most one match in every row; one that does has no two rows with the same ones
AtMostOne ==
    HasZ => IF Z.agg THEN \A j \in 1..NRows(T) : Cardinality({i \in 1..NRows(F) : Same(i, j)}) <= 1
            ELSE \A i \in 1..NRows(F) : Cardinality({j \in 1..NRows(T) : Same(i, j)}) <= 1
\* Lookups have the value of a row with the same key, or the fill where there is none
LookupRight ==
    (HasZ /\ ~Z.agg) => \A i \in 1..NRows(F) :
        LET v == LookupAll(S, "a", <<"z", "v">>)[i] IN
        IF v = IntV(0) THEN \A j \in 1..NRows(T) : ~Same(i, j)
        ELSE \E j \in 1..NRows(T) : Same(i, j) /\ T.data["v"][j] = v
\* Every row with a key that exists is counted once
Sum(f) == SumSeq(f)
CountsAll ==
    (HasZ /\ Z.agg) =>
        LET c == AggAll(S, AggOp("a", <<"z">>, "count", <<"sym", "v">>, Zero))
            s == AggAll(S, AggOp("a", <<"z">>, "sum", <<"sym", "v">>, Zero))
            matched == SelectSeq([j \in 1..NRows(T) |-> j], LAMBDA j : \E i \in 1..NRows(F) : Same(i, j))
        IN /\ SumSeq([i \in DOMAIN c |-> IF c[i] = IntV(-1) THEN Zero ELSE c[i]]) = IntV(Len(matched))
           /\ SumSeq([i \in DOMAIN s |-> IF s[i] = IntV(-1) THEN Zero ELSE s[i]])
              = SumSeq([n \in DOMAIN matched |-> T.data["v"][matched[n]]])
           /\ \A i \in DOMAIN c : (c[i] = IntV(-1)) = (\A j \in 1..NRows(T) : ~Same(i, j))
\* Order of statistics
Ordering ==
    (HasZ /\ Z.agg) => \A i \in 1..NRows(F) :
        LET V(f, q) == AggAll(S, AggOp("a", <<"z">>, f, <<"sym", "w">>, q))[i] IN
        ~IsNaN(V("mean", Zero)) => /\ ~NumLess(V("max", Zero), V("mean", Zero)) /\ ~NumLess(V("mean", Zero), V("min", Zero))
                                   /\ V("quantile", Zero) = V("min", Zero) /\ V("quantile", One) = V("max", Zero)
                                   /\ V("quantile", Half0) = V("median", Zero)
                                   /\ Mul(V("mean", Zero), V("count", Zero)) = V("sum", Zero)
\* Of two opposite links at most one needs aggregation, and one does exactly if the other shares matches
Opposite ==
    (HasZ /\ "y" \in DOMAIN T.links /\ Z.self = T.links["y"].other /\ Z.other = T.links["y"].self) =>
        /\ ~(Z.agg /\ T.links["y"].agg)
        /\ (~Z.agg /\ ~T.links["y"].agg) => \A i \in 1..NRows(F) : LET j == TargetRow(Z, i) IN j # 0 => TargetRow(T.links["y"], j) = i
\* A link either can be made or cannot, whatever has been asked
Decided == \A k \in DOMAIN Ops : Ops[k].op = "link" /\ Enabled(S, Ops[k]) =>
    LET l == LinkSpec(S, Ops[k]) IN l.res = {"ok"} \/ (~Distinct(SideKeys(S.frames[Ops[k].f], Ops[k].args.on, <<>>)) \/ Ops[k].args # NoArgs)
=============================================================================

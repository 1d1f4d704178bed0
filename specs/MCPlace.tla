------------------------------ MODULE MCPlace -------------------------------
(* Every filter and every key of a dict literal, over trees of up to three    *)
(* levels in which names repeat (C06).                                        *)
EXTENDS MCBase, Seqs
CONSTANT Pairs     \* Whether dict literals have two keys

U == Units("m", <<N(1), N(2)>>)
Vec == <<Declare("m", "v", "vector", 0), Put1("m", "v", Array("f8", <<N(3), N(5)>>))>>
Starts == <<
  <<New("m"), AddTo("m", <<>>, A, One), AddTo("m", <<>>, B, One), AddTo("m", <<>>, C, One), U>> \o Vec,
  <<New("m"), AddTo("m", <<>>, A, One), AddTo("m", <<A>>, A, One), AddTo("m", <<A>>, B, One), AddTo("m", <<>>, B, Half), U>> \o Vec,
  <<New("m"), AddTo("m", <<>>, A, One), AddTo("m", <<>>, B, Half), AddTo("m", <<B>>, A, One), AddTo("m", <<B, A>>, A, One),
    AddTo("m", <<B, A>>, B, One), AddTo("m", <<B>>, C, One), U>> \o Vec >>

Keys == UNION {[1..n -> {A, B, C, Star}] : n \in 1..3} \cup {<<A, A, A, A>>, <<B, A, A, A>>, <<B, A, A, B>>}
Plain == {k \in Keys : StarAt(k) = 0}
Filters == {Say("m", Sym("v"), k, "") : k \in Keys}
Dicts == {Say("m", <<"dict", <<<<k, N(4)>>>>>>, <<>>, "") : k \in Keys}
Both == {Say("m", Times(Sym("v"), <<"dict", <<<<k, N(4)>>>>>>), f, "") :
         k \in {<<A>>, <<B>>, <<B, Star>>, <<A, Star>>, <<B, A>>, <<B, A, Star>>}, f \in {<<A>>, <<B>>, <<B, A>>, <<A, A>>, <<B, A, B>>}}
Twice == IF ~Pairs THEN {} ELSE {Say("m", <<"dict", <<<<k, N(4)>>, <<l, N(6)>>>>>>, <<>>, "") : k \in Keys, l \in Keys}
Ops == <<Run("m", "", FALSE, FALSE), ClearExprs("m"), Say("m", Sym("v"), <<>>, ""), Say("m", <<"dict", <<<<<<A>>, N(4)>>, <<<<B>>, N(6)>>>>>>, <<>>, "")>>
       \o Listed(Filters) \o Listed(Dicts) \o Listed(Both) \o Listed(Twice)
Observers == <<1>>
Paths(s) == {s.models["m"].nodes[n].path : n \in DOMAIN s.models["m"].nodes}
Pathways(k, paths) == \* The choices that a key names
    LET p == StarAt(k) IN
    IF p = 0 THEN {k} \cap paths
    ELSE {q \in paths : Len(q) >= p /\ SubSeq(q, 1, p - 1) = SubSeq(k, 1, p - 1)}
Overlap(e, paths) ==
    e.x.ast[1] = "dict" /\ Len(e.x.ast[2]) = 2
    /\ Pathways(e.x.ast[2][1][1], paths) \cap Pathways(e.x.ast[2][2][1], paths) # {}
Enabled(s, e) ==
    CASE e.op = "append" -> s.models["m"].exprs = <<>> /\ ~Overlap(e, Paths(s))
      [] e.op = "clear_exprs" -> s.models["m"].exprs # <<>>
      [] OTHER -> TRUE
Prepare(s, e) == IF e.op = "append" THEN [e EXCEPT !.x = [raw |-> "?"] @@ @] ELSE e
VARIABLES S, start
INSTANCE Explore

M == S.models["m"]
R == Do(S, Run("m", "", FALSE, FALSE))
X == M.exprs[1]
PathAt(j) == M.nodes[j].path
\* A filter names one choice exactly, or the run fails
FilterOnce ==
    (M.exprs # <<>> /\ X.flt # <<>> /\ X.ast = Sym("v")) =>
        IF X.flt \in Paths(S)
        THEN R.res = {"ok"} /\ \A i \in 1..2 : \A j \in DOMAIN M.nodes :
                 R.u[i][j] = IF PathAt(j) = X.flt THEN <<N(3), N(5)>>[i] ELSE Zero
        ELSE "error" \in R.res
\* A dict literal has its value for the choices its keys name, and nought elsewhere
DictThere ==
    (M.exprs # <<>> /\ X.ast[1] = "dict" /\ X.flt = <<>>) =>
        LET where == UNION {Pathways(X.ast[2][n][1], Paths(S)) : n \in DOMAIN X.ast[2]} IN
        IF R.res = {"ok"}
        THEN \A i \in 1..2 : \A j \in DOMAIN M.nodes :
                 (R.u[i][j] # Zero) = (PathAt(j) \in where)
                 /\ (R.u[i][j] # Zero => \E n \in DOMAIN X.ast[2] : X.ast[2][n][2] = R.u[i][j]
                                          /\ PathAt(j) \in Pathways(X.ast[2][n][1], Paths(S)))
        ELSE \E n \in DOMAIN X.ast[2] : LET k == X.ast[2][n][1] IN
                 k[1] = Star \/ (StarAt(k) # 0 /\ Depth(M) = 1) \/ Pathways(k, Paths(S)) = {}
                 \/ (StarAt(k) # 0 /\ SubSeq(k, 1, StarAt(k) - 1) \notin Paths(S))
\* The filter restricts, whatever else the expression does
FilterRestricts ==
    (M.exprs # <<>> /\ X.flt # <<>> /\ R.res = {"ok"}) =>
        \A i \in 1..2 : \A j \in DOMAIN M.nodes : PathAt(j) # X.flt => R.u[i][j] = Zero
=============================================================================

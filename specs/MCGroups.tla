------------------------------ MODULE MCGroups ------------------------------
(* Expressions in groups, evaluated at once or in parts, with data that comes *)
(* and goes (C06, C10, C12).                                                  *)
EXTENDS MCBase
Starts == << <<New("m"), AddTo("m", <<>>, A, One), AddTo("m", <<>>, B, One), Units("m", <<N(1), N(2)>>),
    Declare("m", "n", "number", 0), Put1("m", "n", Scalar(N(3))),
    Declare("m", "v", "vector", 0), Put1("m", "v", Series("i", <<N(1), N(2)>>, <<N(1), N(5)>>)),
    Say("m", Sym("n"), <<A>>, ""), Say("m", Times(Sym("v"), Lit(2)), <<>>, "g1"), Say("m", Plus(Sym("v"), Sym("n")), <<B>>, "g2")>>,
  <<New("m"), AddTo("m", <<>>, A, One), AddTo("m", <<>>, B, One), Units("m", <<N(1), N(2)>>),
    Declare("m", "w", "vector", 1), Put1("m", "w", Array("i8", <<N(4), N(7)>>)), Declare("m", "n", "number", 0), Put1("m", "n", Scalar(N(3))),
    Say("m", Sym("n"), <<>>, "g1"), Say("m", Times(Sym("n"), Sym("w")), <<A>>, "g1"), Say("m", Sym("w"), <<B>>, "g2")>> >>
Ops == << Run("m", "", FALSE, FALSE), Run("m", "g1", FALSE, FALSE), Run("m", "g2", FALSE, FALSE), Run("m", "", TRUE, FALSE),
  Discrete("m", FALSE),
  Preval("m", "g1", TRUE, FALSE), Preval("m", "g1", FALSE, FALSE), Preval("m", "g1", TRUE, TRUE), Preval("m", "g2", TRUE, TRUE),
  Preval("m", "g2", TRUE, FALSE), Preval("m", "g1", FALSE, TRUE), DropGroup("m", "g1"), DropGroup("m", "g2"),
  Partial("m", <<N(2), N(1)>>, <<<<B>>, <<A>>>>, <<<<N(10), N(20)>>, <<N(30), N(40)>>>>, FALSE, TRUE),
  Partial("m", <<N(2)>>, <<<<A>>>>, <<<<Half>>>>, TRUE, TRUE), Partial("m", <<N(3)>>, <<<<A>>>>, <<<<One>>>>, TRUE, TRUE),
  Partial("m", <<N(1), N(2)>>, <<<<A>>>>, <<<<One>>, <<One>>>>, TRUE, FALSE),
  Units("m", <<N(1), N(2)>>), Put1("m", "n", Scalar(N(3))), Put1("m", "v", Series("i", <<N(1), N(2)>>, <<N(1), N(5)>>)),
  Put1("m", "w", Array("i8", <<N(4), N(7)>>)), Declare("m", "n", "number", 0),
  Put1("m", "v", Series("i", <<N(2), N(1)>>, <<N(1), N(5)>>)) >>
Observers == <<1, 2, 3>>
Bounded(s) == LET c == s.models["m"].cached IN
    ~c.set \/ (NumLess(c.v[1][1], IntV(41)) /\ NumLess(c.v[2][1], IntV(41)) /\ NumLess(c.v[1][2], IntV(41)) /\ NumLess(c.v[2][2], IntV(41)))
Enabled(s, e) ==
    CASE e.op = "preval" -> Bounded(s)
      [] e.op = "partial" -> Bounded(s) /\ ~s.models["m"].cached.set
      [] OTHER -> TRUE
Prepare(s, e) == IF e.op = "append" THEN [e EXCEPT !.x = [raw |-> "?"] @@ @] ELSE e
VARIABLES S, start
INSTANCE Explore

M == S.models["m"]
U(s) == RunOutcome(s, s.models["m"], "", FALSE, FALSE).u
Gs == {"g1", "g2"} \cap Groups(M)
\* Pre-evaluating a group and dropping it changes no utility, whatever is cleaned up
PrevalAddsUp ==
    U(S) # <<>> => \A g \in Gs : \A c \in BOOLEAN :
        LET T == React(S, Preval("m", g, TRUE, c)) IN T # S /\ U(T) = U(S)
\* Nor does the order of doing so
PrevalOrder ==
    (U(S) # <<>> /\ Cardinality(Gs) = 2) =>
        React(React(S, Preval("m", "g1", TRUE, TRUE)), Preval("m", "g2", TRUE, TRUE))
        = React(React(S, Preval("m", "g2", TRUE, TRUE)), Preval("m", "g1", TRUE, TRUE))
Zeros == [i \in DOMAIN M.du.v |-> [j \in DOMAIN M.nodes |-> Zero]]
Plain(s, g) == RunOutcome(s, [s.models["m"] EXCEPT !.cached = NoVal], g, FALSE, FALSE).u
Cached == IF M.cached.set THEN M.cached.v ELSE Zeros
\* A run of the whole is the partial utilities, the runs of all groups and of the expressions without one
GroupsAddUp ==
    U(S) # <<>> =>
        LET rest == [S EXCEPT !.models["m"].exprs = InGroup(M, ""), !.models["m"].cached = NoVal]
        IN \A i \in DOMAIN M.du.v : \A j \in DOMAIN M.nodes :
            U(S)[i][j] = Add(Add(Cached[i][j], U(rest)[i][j]),
                             Add(IF "g1" \in Gs THEN Plain(S, "g1")[i][j] ELSE Zero, IF "g2" \in Gs THEN Plain(S, "g2")[i][j] ELSE Zero))
\* Nor does the order of the expressions matter
OrderOfExpressions ==
    U(S) # <<>> => U(S) = U([S EXCEPT !.models["m"].exprs = [n \in DOMAIN @ |-> @[Len(@) + 1 - n]]])
\* New decision units leave numbers only
UnitsEmpty == LET T == React(S, Units("m", <<N(1), N(2)>>)).models["m"] IN
    /\ ~T.cached.set /\ T.exprs = M.exprs /\ T.nodes = M.nodes
    /\ \A n \in DOMAIN T.scope : T.scope[n].has = (M.scope[n].has /\ M.scope[n].k = "number")
=============================================================================

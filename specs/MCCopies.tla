------------------------------ MODULE MCCopies ------------------------------
(* A model and copies of it, and what happens to them afterwards (C11).       *)
EXTENDS MCBase
Table == FrameOp("f", <<"a">>, [a |-> "i"], [a |-> <<N(4), N(6)>>], <<<<N(1)>>, <<N(2)>>>>, <<"i0">>)
Basis == <<New("m"), AddTo("m", <<>>, A, One), AddTo("m", <<>>, B, One), Units("m", <<N(1), N(2)>>),
    Declare("m", "n", "number", 0), Put1("m", "n", Scalar(N(3))),
    Declare("m", "v", "vector", 0), Put1("m", "v", Series("i", <<N(1), N(2)>>, <<N(1), N(5)>>)),
    Say("m", Sym("n"), <<A>>, ""), Say("m", Times(Sym("v"), Lit(2)), <<>>, "g1")>>
Starts == << Basis,
  Basis \o <<Partial("m", <<N(2), N(1)>>, <<<<B>>, <<A>>>>, <<<<N(10), N(20)>>, <<N(30), N(40)>>>>, FALSE, TRUE)>>,
  <<New("m"), AddTo("m", <<>>, A, Half), AddTo("m", <<A>>, C, One), AddTo("m", <<A>>, D, One), AddTo("m", <<>>, B, One),
    Units("m", <<N(1), N(2)>>), Table,
    Declare("m", "t", "table", 0), Put1("m", "t", [t |-> "table", fid |-> "f"]),
    DeclareMatrix("m", "v", 0, Zero, TRUE, TRUE),
    Put1("m", "v", Matrix(<<<<N(2)>>, <<N(1)>>>>, <<<<B, Dot>>>>, <<<<N(3)>>, <<Half>>>>)),
    Say("m", Attr(<<"t", "a">>), <<A, C>>, ""), Say("m", Times(Sym("v"), Lit(2)), <<>>, "g1")>> >>
On(m) == << Run(m, "", FALSE, FALSE), Run(m, "g1", FALSE, FALSE), Run(m, "", TRUE, FALSE),
  Put1(m, "v", Series("i", <<N(1), N(2)>>, <<N(7), N(0)>>)), Put1(m, "n", Scalar(N(8))), DropGroup(m, "g1"),
  Say(m, Lit(1), <<>>, "g2"), Preval(m, "g1", TRUE, TRUE), Partial(m, <<N(2)>>, <<<<B>>>>, <<<<Half>>>>, TRUE, TRUE),
  AddTo(m, <<>>, D, One), ClearScope(m), Units(m, <<N(2)>>), Look(m) >>
Ops == On("m") \o On("n") \o
  << Copy("m", "n", TRUE, TRUE, TRUE, TRUE, TRUE), Copy("m", "n", TRUE, TRUE, FALSE, TRUE, FALSE), Copy("m", "n", FALSE, FALSE, FALSE, TRUE, FALSE),
     Copy("m", "n", TRUE, TRUE, TRUE, FALSE, FALSE),
     SubsetOf("m", "n", <<N(1), N(2)>>, <<FALSE, TRUE>>), SubsetOf("m", "n", <<N(1), N(2)>>, <<TRUE, TRUE>>),
     SubsetOf("m", "n", <<N(2), N(1)>>, <<TRUE, TRUE>>), Copy("n", "o", TRUE, TRUE, TRUE, TRUE, TRUE) >>
Observers == <<1, 14>>
\* How often a model has been changed since
One01(b) == IF b THEN 1 ELSE 0
Steps(M) == One01(\E k \in DOMAIN M.exprs : M.exprs[k].grp = "g2") + One01(~\E k \in DOMAIN M.exprs : M.exprs[k].grp = "g1")
            + One01(\E k \in DOMAIN M.nodes : M.nodes[k].path = <<D>>) + One01(M.scope = NoFn)
            + One01("n" \in DOMAIN M.scope /\ M.scope["n"].d = IntV(8))
            + One01("v" \in DOMAIN M.scope /\ M.scope["v"].d = <<N(7), N(0)>>)
CONSTANT Limit
Enabled(s, e) ==
    IF e.m \notin DOMAIN s.models THEN FALSE
    ELSE LET M == s.models[e.m] IN
    CASE e.op \in {"copy", "subset"} -> e.n \notin DOMAIN s.models /\ (e.n = "o" => Depth(M) = 1 /\ Steps(s.models["m"]) = 0 /\ Steps(M) = 0)
      [] e.op = "partial" -> ~M.cached.set /\ Depth(M) = 1 /\ Steps(M) < Limit
      [] e.op = "append" -> Steps(M) < Limit /\ \A k \in DOMAIN M.exprs : M.exprs[k].grp # "g2"
      [] e.op \in {"preval", "drop_group", "assign", "clear_scope"} -> Steps(M) < Limit
      [] e.op = "run" /\ e.clear -> Steps(M) < Limit
      [] e.op = "add_choice" -> Steps(M) < Limit /\ Depth(M) = 1 /\ ~\E k \in DOMAIN M.nodes : M.nodes[k].path = <<D>>
      [] e.op = "set_du" -> Steps(M) < Limit /\ Len(M.du.v) # 1
      [] OTHER -> TRUE
Prepare(s, e) == IF e.op = "append" THEN [e EXCEPT !.x = [raw |-> "?"] @@ @] ELSE e
VARIABLES S, start
INSTANCE Explore

M == S.models["m"]
U(s, m, g) == RunOutcome(s, s.models[m], g, FALSE, FALSE)
Masks == {[k \in DOMAIN M.du.v |-> k \in X] : X \in SUBSET DOMAIN M.du.v}
\* A full copy does what the model does
CopyIsFaithful ==
    LET s == React(S, Copy("m", "n", TRUE, TRUE, TRUE, TRUE, TRUE)) IN \A g \in {"", "g1", "g2"} : U(s, "n", g) = U(S, "m", g)
\* A subset yields the rows of the model that were selected
SubsetCommutes ==
    M.du.set => \A mask \in Masks : \A g \in {"", "g1"} :
        LET e == [SubsetOf("m", "n", <<>>, mask) EXCEPT !.idx = M.du.v]
            s == React(S, e)
            keep == SelectSeq([k \in DOMAIN M.du.v |-> k], LAMBDA k : mask[k])
            a == U(S, "m", g) b == U(s, "n", g)
        IN (a.u # <<>> /\ keep # <<>>) => b.u = [k \in DOMAIN keep |-> a.u[keep[k]]]
\* A subset of everything is a copy
FullSubset == M.du.set =>
    React(S, [SubsetOf("m", "n", <<>>, [k \in DOMAIN M.du.v |-> TRUE]) EXCEPT !.idx = M.du.v]) = React(S, Copy("m", "n", TRUE, TRUE, TRUE, TRUE, TRUE))
\* What is done to one model leaves the others alone
Isolated == \A k \in DOMAIN Ops : Enabled(S, Ops[k]) =>
    \A m \in DOMAIN S.models : (m # Ops[k].m /\ ~(Ops[k].op \in {"copy", "subset"} /\ Ops[k].n = m)) =>
        React(S, Prepare(S, Ops[k])).models[m] = S.models[m]
=============================================================================

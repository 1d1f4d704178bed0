------------------------------ MODULE MCReady -------------------------------
(* All states of a model on its way to being complete, and what a run does in *)
(* each of them (C09, C08).                                                   *)
EXTENDS MCBase
Starts == << <<New("m")>>,
             <<New("m"), AddTo("m", <<>>, A, One), AddTo("m", <<>>, B, One), Units("m", <<N(1), N(2)>>)>> >>
E0 == Say("m", Sym("n"), <<>>, "")
E1 == Say("m", Plus(Sym("n"), Sym("v")), <<>>, "g1")
E2 == Say("m", Lit(2), <<A>>, "g2")
Chain == Say("m", Attr(<<"v", "x">>), <<>>, "g2")
Ops == << Look("m"), Run("m", "", FALSE, TRUE), Run("m", "g1", FALSE, FALSE), Run("m", "g2", FALSE, FALSE),
  Run("m", "g3", FALSE, FALSE), Validate("m", ""), Validate("m", "g1"), Validate("m", "g3"), Run("m", "", TRUE, TRUE),
  AddTo("m", <<>>, A, One), AddTo("m", <<>>, B, One), AddTo("m", <<A>>, C, One), AddTo("m", <<A>>, D, One),
  Units("m", <<N(1), N(2)>>),
  Declare("m", "n", "number", 0), Declare("m", "v", "vector", 0), ClearScope("m"),
  Put1("m", "n", Scalar(N(3))), Put1("m", "v", Array("i8", <<N(1), N(2)>>)), Put1("m", "v", Array("i8", <<N(1), N(2), N(3)>>)),
  Put1("m", "z", Scalar(N(1))),
  E0, E1, E2, Chain, ClearExprs("m"), DropGroup("m", "g1"), DropGroup("m", "g3"), Discrete("m", FALSE) >>
Observers == <<2, 3, 4>>
Paths(s) == {s.models["m"].nodes[n].path : n \in DOMAIN s.models["m"].nodes}
\* The tree grows in one order
Enabled(s, e) ==
    LET M == s.models["m"] IN
    CASE e.op = "add_choice" -> (e.parent = <<>> \/ e.parent \in Paths(s)) /\ Append(e.parent, e.name) \notin Paths(s)
                                /\ (e.name = D => <<A, C>> \in Paths(s)) /\ (e.name = B => <<A>> \in Paths(s))
                                /\ (e.name = C => M.exprs = <<>>)
      [] e.op = "set_du" -> ~M.du.set \/ \E n \in DOMAIN M.scope : M.scope[n].has
      [] e.op = "append" -> e.x.grp \notin {M.exprs[n].grp : n \in DOMAIN M.exprs} /\ (e.x.grp = "" => M.exprs = <<>>)
      [] OTHER -> TRUE
Prepare(s, e) == IF e.op = "append" THEN [e EXCEPT !.x = [raw |-> "?"] @@ @] ELSE e
VARIABLES S, start
INSTANCE Explore

M == S.models["m"]
Res(e) == Do(S, e).res
\* What is needed for a run, said once more
Complete(g) ==
    /\ Cardinality({p \in Paths(S) : Len(p) = 1}) >= 2
    /\ \A p \in Paths(S) : Cardinality({q \in Paths(S) : Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p}) # 1
    /\ M.du.set
    /\ \A n \in DOMAIN M.exprs : g \in {"", M.exprs[n].grp} =>
            \A s \in SimpleNames(M.exprs[n].ast) \cup ChainNames(M.exprs[n].ast) : s \in DOMAIN M.scope /\ M.scope[s].has
RunsWhenComplete ==
    \A g \in {"", "g1", "g2", "g3"} :
        LET r == Res(Run("m", g, FALSE, FALSE)) IN
        /\ ("ModelNotReadyError" \in r) = ~Complete(g)
        /\ (g # "" /\ g \notin {M.exprs[n].grp : n \in DOMAIN M.exprs}) = ("KeyError" \in r)
\* A validation passes exactly when a run gets as far as evaluating
ValidateAgrees ==
    \A g \in {"", "g1", "g2", "g3"} :
        (Res(Validate("m", g)) = {"ok"}) = (Res(Run("m", g, FALSE, FALSE)) \cap {"ModelNotReadyError", "KeyError"} = {})
\* Runs do not change the state, unless they clear the scope
RunsChangeNothing ==
    /\ \A g \in {"", "g1", "g2", "g3"} : React(S, Run("m", g, FALSE, TRUE)) = S /\ React(S, Validate("m", g)) = S
    /\ LET r == React(S, Run("m", "", TRUE, TRUE)).models["m"] IN [r EXCEPT !.scope = M.scope] = M
\* No symbol is both plain and chained
NamesConsistent == Simple(M.exprs) \cap Chained(M.exprs) = {}
\* With every group complete, the model is, and conversely
GroupsAndWhole ==
    Complete("") => \A g \in {M.exprs[n].grp : n \in DOMAIN M.exprs} : Complete(g)
=============================================================================

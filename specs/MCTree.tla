------------------------------- MODULE MCTree -------------------------------
(* All ways of building the choice tree from a few choices (C05).             *)
EXTENDS MCBase
Starts == <<
  <<New("m"), Units("m", <<N(1), N(2)>>), Declare("m", "n", "number", 0), Put1("m", "n", Scalar(N(2))),
    Declare("m", "v", "vector", 0), Put1("m", "v", Array("i8", <<N(1), N(3)>>)), Say("m", Times(Sym("n"), Sym("v")), <<>>, "")>>,
  <<New("m"), Units("m", <<N(7)>>), Say("m", Lit(3), <<A>>, ""), Say("m", Lit(1), <<>>, "")>> >>
Ops == << Look("m"), Run("m", "", FALSE, FALSE),
  AddTo("m", <<>>, A, One), AddTo("m", <<>>, A, Half), AddTo("m", <<>>, B, One),
  AddTo("m", <<A>>, B, One), AddTo("m", <<A>>, C, Half), AddTo("m", <<A, C>>, A, One), AddTo("m", <<A, C>>, B, Half),
  AddBatch("m", <<B, A>>, <<One, Half>>), AddBatch("m", <<B, Star, A>>, <<One, One, One>>), AddBatch("m", <<B, B>>, <<Half, One>>),
  AddTo("m", <<>>, Star, One), AddTo("m", <<A>>, TextOf(<<65, 46>>), One), AddTo("m", <<>>, A, Zero), AddTo("m", <<A>>, B, N(2)),
  AddBatch("m", <<B, C>>, <<One, N(2)>>), AddBatch("m", <<C, B>>, <<One>>), AddBatch("m", <<C>>, <<Half, One>>), AddBatch("m", <<Star, B>>, <<One, One>>), SetScale("m", <<A>>, Half), SetScale("m", <<A>>, Zero),
  Partial("m", <<N(1)>>, <<<<A>>>>, <<<<N(5)>>>>, TRUE, TRUE), Partial("m", <<N(2)>>, <<<<B, Dot>>>>, <<<<N(5)>>>>, TRUE, TRUE),
  Partial("m", <<N(7)>>, <<<<A, C, Dot>>>>, <<<<Half>>>>, TRUE, TRUE) >>
Observers == <<1, 2>>
Paths(s) == {s.models["m"].nodes[n].path : n \in DOMAIN s.models["m"].nodes}
Enabled(s, e) ==
    CASE e.op = "add_choice" -> e.parent = <<>> \/ e.parent \in Paths(s)
      [] e.op = "set_scale" -> e.path \in Paths(s)
      [] e.op = "partial" -> ~s.models["m"].cached.set /\ Len(e.cols[1]) = Depth(s.models["m"])
      [] OTHER -> TRUE
Prepare(s, e) == e
VARIABLES S, start
INSTANCE Explore

M == S.models["m"]
\* Every choice is there once, after the nest that it is in
TreeShape ==
    /\ \A n, k \in DOMAIN M.nodes : M.nodes[n].path = M.nodes[k].path => n = k
    /\ \A n \in DOMAIN M.nodes : Len(M.nodes[n].path) > 1 =>
            \E k \in 1..(n - 1) : M.nodes[k].path = Front(M.nodes[n].path)
    /\ \A n \in DOMAIN M.nodes : ValidScale(M.nodes[n].scale) /\ \A p \in DOMAIN M.nodes[n].path : ValidName(M.nodes[n].path[p])
\* The labels of the choices identify them, and the elemental ones are a part of them in the same order
LabelsDiffer == \A n, k \in DOMAIN Choices(M) : Choices(M)[n] = Choices(M)[k] => n = k
ElementalInOrder ==
    /\ Elemental(M) = SelectSeq(Choices(M), LAMBDA c : c \in Range(Elemental(M)))
    /\ (M.nodes # <<>> => Elemental(M) # <<>>)
    /\ \A n \in DOMAIN M.nodes : Len(M.nodes[n].path) = Depth(M) => IsElemental(M, n)
\* What can be run yields a utility for every node
RunsFit ==
    LET r == RunOutcome(S, M, "", FALSE, FALSE) IN
    r.u # <<>> => \A i \in DOMAIN r.u : Len(r.u[i]) = Len(M.nodes)
=============================================================================

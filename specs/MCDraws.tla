------------------------------ MODULE MCDraws -------------------------------
(* All orders of discrete runs with seeds and with two random states, and of  *)
(* other random-number activity (C04).                                        *)
EXTENDS MCBase, Seqs
CONSTANTS Most,     \* How often a random state is used at most
          Rows, Draws0

State(name, init) == [op |-> "state", dom |-> "logit", name |-> name, init |-> init]
Noise(what, v) == [op |-> "noise", dom |-> "logit", what |-> what, v |-> v]
IntSeed(v) == [k |-> "int", v |-> v]
RsSeed(name) == [k |-> "rs", name |-> name]
Cells(n, d, seed, threads) == [op |-> "cells", dom |-> "logit", n |-> n, draws |-> d, seed |-> seed, count |-> 64, threads |-> threads]
Flat2(n) == [k \in 1..n |-> 1]
\* Two decision units in three are as likely to have A as B, the others can only have B
Run2(seed, d) == [op |-> "draws", dom |-> "logit", nodes |-> <<[path |-> <<A>>, scale |-> One], [path |-> <<B>>, scale |-> One]>>,
                  scaling |-> TRUE, du |-> [k \in 1..Rows |-> <<N(k)>>], pat |-> [k \in 1..Rows |-> IF k % 3 = 0 THEN 2 ELSE 1],
                  b |-> <<<<One, One>>, <<Zero, One>>>>, zeros |-> <<<<"inf", "inf">>, <<"inf", "inf">>>>, shift |-> <<0, 0>>,
                  how |-> "matrix", large |-> FALSE, threads |-> 1, precision |-> 8, check |-> TRUE, n |-> Rows, draws |-> d,
                  seed |-> seed, astype |-> "index", squeeze |-> FALSE, name |-> "picks"]
Starts == << <<State("A", 1), State("B", 1)>>, <<State("A", 1), State("B", 2)>> >>
Ops == << State("A", 2), State("B", 1), Noise("numpy", 3), Noise("python", 4), Noise("draw", 5), Noise("run", 6) >>
       \o Listed({Cells(Rows, d, s, 1) : d \in Draws0, s \in {IntSeed(1), IntSeed(2), RsSeed("A"), RsSeed("B")}})
       \o Listed({Run2(s, d) : d \in Draws0, s \in {IntSeed(1), RsSeed("A")}})
Observers == <<>>
Used(s, e) == IF e.op \in {"cells", "draws"} /\ e.seed.k = "rs" THEN s.rng[e.seed.name].used ELSE 0
Enabled(s, e) == Used(s, e) < Most
Prepare(s, e) ==
    CASE e.op = "cells" -> [res |-> "ok", errs |-> <<>>, cells |-> [k \in 1..e.n |-> [d \in 1..e.draws |-> 0]]] @@ e
      [] e.op = "draws" -> [res |-> "ok", errs |-> <<>>, rows |-> <<>>, picks |-> <<>>, at |-> <<>>, seen |-> <<>>, form |-> "", rname |-> "",
                            dcols |-> <<>>, kind |-> ""] @@ e
      [] OTHER -> e
VARIABLES S, start
INSTANCE Explore

Keys(s) == {KeyOf(s, Ops[k]) : k \in {k \in DOMAIN Ops : Ops[k].op \in {"cells", "draws"}}}
\* What is drawn depends on the seed only, or on the state and how often it was used
Determined ==
    \A k \in DOMAIN Ops : Ops[k].op \in {"cells", "draws"} =>
        LET e == Ops[k] key == KeyOf(S, e) IN
        IF e.seed.k = "int" THEN key = <<<<"int", e.seed.v>>, e.n, e.draws>> /\ React(S, Prepare(S, e)) = S
        ELSE /\ KeyOf(React(S, Prepare(S, e)), e) # key
             /\ \A name \in DOMAIN S.rng : name # e.seed.name => React(S, Prepare(S, e)).rng[name] = S.rng[name]
NoiseIgnored == \A k \in DOMAIN Ops : Ops[k].op = "noise" => React(S, Ops[k]) = S
=============================================================================

------------------------------- MODULE MCPick -------------------------------
(* Every draw from few weights for every of some uniform numbers, by every    *)
(* sampler that takes one (C03).                                              *)
EXTENDS MCBase, Seqs
CONSTANTS Length, Largest

Weights == {w \in UNION {[1..n -> 0..Largest] : n \in 2..Length} : \E k \in DOMAIN w : w[k] > 0}
SumW(w) == SumTo([k \in DOMAIN w |-> N(w[k])], Len(w))[2]
UpTo(w, k) == SumTo([i \in DOMAIN w |-> N(w[i])], k)[2]
\* The middles of as many parts as there are units of weight, and the bounds in between
Middles(w) == {Num(2 * k - 1, 2 * SumW(w)) : k \in 1..SumW(w)}
Inner(w) == {Num(k, SumW(w)) : k \in 1..(SumW(w) - 1)}
Ends == {<<"n", 1, 1000>>, <<"n", 999, 1000>>}
Pick1(w, r, side, by) == [op |-> "pick", dom |-> "logit", w |-> [k \in DOMAIN w |-> N(w[k])], r |-> r, side |-> side, by |-> by]
Table == UNION { {Pick1(w, r, "=", by) : r \in Middles(w) \cup Ends, by \in {"once", "search", "simple", "logit"}}
                 \cup {Pick1(w, r, side, by) : r \in Inner(w), side \in {"-", "+"}, by \in {"once", "search"}} : w \in Weights }
Starts == << <<[op |-> "state", dom |-> "logit", name |-> "A", init |-> 1]>> >>
Ops == Listed(Table)
Observers == <<>>
P(w) == [k \in DOMAIN w |-> Div(N(w[k]), N(SumW(w)))]
Bds(w) == Bounds(P(w))
Chosen(w, r) == {k \in DOMAIN w : CanPick(Bds(w), k, r, r)}
Enabled(s, e) == TRUE
Prepare(s, e) == IF e.dom # "logit" THEN e
                 ELSE [res |-> "ok", errs |-> <<>>, got |-> 0] @@ e
VARIABLES S, start
INSTANCE Explore

\* One alternative for every number within the intervals, two neighbours with weight between them
OneChosen ==
    \A w \in Weights : /\ \A r \in Middles(w) : Cardinality(Chosen(w, r)) = 1
                       /\ \A r \in Inner(w) : Cardinality(Chosen(w, r)) \in {1, 2}
                       /\ \A r \in Middles(w) \cup Inner(w) \cup Ends : \A k \in Chosen(w, r) : w[k] > 0
\* As many of the equal parts of the unit interval as an alternative has weight are its own
Shares == \A w \in Weights : \A k \in DOMAIN w : Cardinality({r \in Middles(w) : k \in Chosen(w, r)}) = w[k]
InOrder == \A w \in Weights : \A r, q \in Middles(w) : NumLess(r, q) => \A j \in Chosen(w, r), k \in Chosen(w, q) : j <= k
=============================================================================

------------------------------ MODULE MCLogit -------------------------------
(* The probabilities of small trees for every combination of a few utilities, *)
(* scales and options (C01, C02).                                             *)
EXTENDS MCBase, Seqs, Json, IOUtils, TLCExt
CONSTANTS Deep, Levels    \* Which trees: those of one level or the others
Trees == << << <<A>>, <<B>> >>, << <<A>>, <<B>>, <<C>> >>, << <<A>>, <<B>>, <<C>>, <<D>> >>,
            << <<A>>, <<B>>, <<A, C>>, <<A, D>> >>,
            << <<A>>, <<A, C>>, <<A, B>>, <<B>>, <<B, A>>, <<B, B>> >>,
            << <<A>>, <<A, C>>, <<A, D>>, <<B>>, <<A, C, A>>, <<A, C, B>> >>,
            << <<B>>, <<A>>, <<A, B>>, <<C>>, <<A, C>>, <<C, B>>, <<C, A>> >> >>
Inner(tree, n) == \E k \in DOMAIN tree : Len(tree[k]) = Len(tree[n]) + 1 /\ IsPrefixOf(tree[n], tree[k])
Nested(t) == t > 3
Flat == {N(0), N(1), N(2), <<"n", 1, 3>>} \cup (IF Deep THEN {N(5)} ELSE {})
Leaf == {N(0), N(9), N(16)} \cup (IF Deep THEN {N(1)} ELSE {})
Nest == {N(0), N(1), N(4)}
Wide(t) == Len(Trees[t]) > 5
ValuesAt(t, n) == IF ~Nested(t) THEN Flat ELSE IF Inner(Trees[t], n) THEN (IF Wide(t) /\ ~Deep THEN {N(0), N(4)} ELSE Nest)
                  ELSE IF Wide(t) /\ ~Deep /\ Len(Trees[t][n]) = 1 THEN {N(9)} ELSE Leaf
RECURSIVE Combos(_, _)
\* All rows of exponentials, as a sequence
Combos(t, n) == IF n = 0 THEN <<<<>>>>
                ELSE LET rest == TLCEval(Combos(t, n - 1)) vals == TLCEval(Listed(ValuesAt(t, n))) IN
                     [k \in 1..(Len(rest) * Len(vals)) |-> Append(rest[((k - 1) \div Len(vals)) + 1], vals[((k - 1) % Len(vals)) + 1])]
RowsOf == [t \in DOMAIN Trees |-> TLCEval(Combos(t, Len(Trees[t])))]
VARIABLES t, scales, scaling, pc
vars == <<t, scales, scaling, pc>>
\* The scale of a choice without members does not matter
ScaleChoices(x, n) == IF ~Nested(x) THEN {Half} ELSE IF Inner(Trees[x], n) THEN {One, Half} ELSE {<<"n", 1, 3>>}
Nodes == [n \in DOMAIN Trees[t] |-> [path |-> Trees[t][n], scale |-> scales[n]]]
M == [nodes |-> Nodes]
Rows == RowsOf[t]
Results == TLCEval([k \in DOMAIN Rows |-> RowOf(M, Rows[k], scaling)])
CanChoose(b, n) == \A k \in Ancestors(M, n) : b[k] # Zero
Possible(b) == \E n \in DOMAIN b : IsElemental(M, n) /\ CanChoose(b, n)
Case == [nodes |-> Nodes, scaling |-> scaling, b |-> Rows, possible |-> [k \in DOMAIN Rows |-> Possible(Rows[k])]]
Init == /\ t \in {x \in DOMAIN Trees : Nested(x) = (Levels > 1)}
        /\ scales = [n \in DOMAIN Trees[t] |-> One]
        /\ scaling = TRUE
        /\ pc = "tree"
Next == /\ pc = "tree"
        /\ pc' = "model"
        /\ t' = t
        /\ scales' \in {s \in [1..Len(Trees[t]) -> {One, Half, <<"n", 1, 3>>}] : \A n \in DOMAIN s : s[n] \in ScaleChoices(t, n)}
        /\ scaling' \in BOOLEAN
        /\ (scaling' \/ \E n \in DOMAIN scales' : Inner(Trees[t], n) /\ scales'[n] = Half)
Spec == Init /\ [][Next]_vars

\* Writes the case down, so that the implementation can be given it
Exported == pc = "tree" \/ "OUT" \notin DOMAIN IOEnv
            \/ JsonSerialize(IOEnv.OUT \o "-" \o ToString(TLCFP(<<t, scales, scaling>>)), TLCEval(Case))

Unclear(r) == \E n \in DOMAIN r.p : IsAny(r.p[n])
Lawful == pc = "tree" \/
    LET res == TLCEval(Results)
        flat == \A n \in DOMAIN scales : Inner(Trees[t], n) => scales[n] = One
        elem == [n \in DOMAIN Trees[t] |-> IsElemental(M, n)]
    IN \A k \in DOMAIN Rows :
        LET b == Rows[k] r == res[k] IN
        \/ Unclear(r)
        \/ /\ SumSeq(r.p) = (IF Possible(b) THEN One ELSE Zero)
           /\ \A n \in DOMAIN b : (r.p[n] = Zero) = (~elem[n] \/ ~CanChoose(b, n))
           /\ \A n \in DOMAIN b : NumLess(r.p[n], Zero) = FALSE
           /\ (r.ls = Zero) = ~Possible(b)
           \* The odds of members of a nest are those of their own exponentials
           /\ \A n, m \in DOMAIN b : (elem[n] /\ elem[m] /\ Len(Trees[t][n]) = Len(Trees[t][m]) /\ Front(Trees[t][n]) = Front(Trees[t][m]))
                => Mul(r.p[n], b[m]) = Mul(r.p[m], b[n])
           \* With unit scales and zero nest utilities there is no difference to the choices on one level
           /\ (flat /\ \A n \in DOMAIN b : ~elem[n] => b[n] = One)
                => LET tot == SumSeq([n \in DOMAIN b |-> IF elem[n] THEN b[n] ELSE Zero])
                   IN \A n \in DOMAIN b : elem[n] /\ tot # Zero => r.p[n] = Div(b[n], tot)
\* Adding the same to all utilities at the top changes no probability
ShiftFree == pc = "tree" \/
    LET res == TLCEval(Results) IN
    \A k \in DOMAIN Rows :
        LET b == Rows[k] c == RowOf(M, [n \in DOMAIN b |-> IF Len(Trees[t][n]) = 1 THEN Mul(b[n], N(4)) ELSE b[n]], scaling)
        IN Unclear(res[k]) \/ Unclear(c) \/ (c.p = res[k].p /\ c.ls = Mul(N(4), res[k].ls))
=============================================================================

------------------------------ MODULE MCSearch ------------------------------
(* The binary search by which a draw is found, step by step, for all small    *)
(* sequences of cumulative probabilities in units of 1 / K, of which the last *)
(* can fall short of 1 by rounding (C03).                                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS K, MaxLen
VARIABLES cps, r, lo, hi, pc
vars == <<cps, r, lo, hi, pc>>
Rising(s) == \A n \in 1..(Len(s) - 1) : s[n] <= s[n + 1]
\* Positive in total, short by at most one unit
Lists == {s \in UNION {[1..n -> 0..K] : n \in 1..MaxLen} : Rising(s) /\ s[Len(s)] >= K - 1 /\ s[Len(s)] > 0}
\* The number drawn, in half units
Init == cps \in Lists /\ r \in 0..(2 * K) /\ lo = 1 /\ hi = Len(cps) /\ pc = "search"
At(n) == 2 * cps[n]
R == IF r = 0 THEN 0 ELSE r
\* Zero stands for the smallest positive number
LE(n) == IF r = 0 THEN At(n) > 0 ELSE r <= At(n)
Mid == (lo - 1 + hi - 1) \div 2 + 1
Search == /\ pc = "search" /\ hi - lo > 1
          /\ IF LE(Mid) THEN hi' = Mid /\ lo' = lo ELSE lo' = Mid /\ hi' = hi
          /\ UNCHANGED <<cps, r, pc>>
Finish == /\ pc = "search" /\ hi - lo <= 1
          /\ IF LE(lo) THEN pc' = "done" /\ hi' = lo ELSE pc' = "back" /\ hi' = hi
          /\ UNCHANGED <<cps, r, lo>>
Back == /\ pc = "back"
        /\ IF hi > 1 /\ ~LE(hi) /\ cps[hi - 1] >= cps[hi] THEN hi' = hi - 1 /\ pc' = pc ELSE pc' = "done" /\ hi' = hi
        /\ UNCHANGED <<cps, r, lo>>
Next == Search \/ Finish \/ Back
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

P(n) == IF n = 1 THEN cps[1] ELSE cps[n] - cps[n - 1]
\* What it should be: the first whose cumulative probability reaches the number, or else the last that is possible
Linear == IF \E n \in DOMAIN cps : LE(n)
          THEN CHOOSE n \in DOMAIN cps : LE(n) /\ \A k \in 1..(n - 1) : ~LE(k)
          ELSE CHOOSE n \in DOMAIN cps : P(n) > 0 /\ \A k \in (n + 1)..Len(cps) : P(k) = 0
Right == pc = "done" => hi = Linear
Possible == pc = "done" => P(hi) > 0
\* While searching, everything below is too small, and the top is large enough if anything is
Bracket == pc = "search" => /\ lo <= hi
                            /\ \A n \in 1..(lo - 1) : ~LE(n)
                            /\ (lo > 1 => ~LE(lo))
                            /\ (hi < Len(cps) => LE(hi))
Ends == <>(pc = "done")
=============================================================================

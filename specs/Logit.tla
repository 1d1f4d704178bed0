------------------------------- MODULE Logit --------------------------------
(* Logit probabilities and draws.                                             *)
(*                                                                            *)
(* Utilities appear through their exponentials: b[j] = exp(u_j / s), where s  *)
(* is the scale of the parent nest (1 at the top, or if the utilities are not *)
(* scaled), so that everything that the recursion computes is a rational      *)
(* number. A choice with b = 0 is infeasible, one with b = infinity is too    *)
(* large to exponentiate.                                                     *)
(*                                                                            *)
(* Draws are a function of the seed, the number of decision units and the     *)
(* number of draws only. They are observed through a model of many equally    *)
(* probable choices: the choice made shows in which of as many equal parts    *)
(* of the unit interval the uniform number lies (its cell).                   *)
(*   S.cells  <<seed, rows, draws>> -> [n: number of cells, at: the cells]    *)
(*   S.rng    name -> [init, used] the random states that the user holds      *)
EXTENDS Model, TLC

Zero == IntV(0)
One == IntV(1)

RECURSIVE IPow(_, _)
IPow(a, k) == IF k = 0 THEN 1 ELSE a * IPow(a, k - 1)
\* The q-th root of an integer, or -1
IRoot(n, q) == IF q = 1 THEN n
               ELSE LET R == {r \in 0..100 : (q = 2 \/ r <= 10) /\ IPow(r, q) = n}
                    IN IF R = {} THEN -1 ELSE CHOOSE r \in R : TRUE
\* v to the power of x, for v > 0 and x > 0
PowerOf(v, x) == IF IsAny(v) THEN Unspec ELSE
    LET n == IRoot(v[2], x[3]) d == IRoot(v[3], x[3]) IN
    IF n < 0 \/ d < 0 THEN Unspec ELSE PowInt(Num(n, d), x[2])

RECURSIVE SumOver(_, _)
SumOver(f, D) == IF D = {} THEN Zero ELSE LET k == CHOOSE k \in D : TRUE IN Add(f[k], SumOver(f, D \ {k}))

ChildrenOf(M, path) == {n \in DOMAIN M.nodes : Len(M.nodes[n].path) = Len(path) + 1 /\ IsPrefixOf(path, M.nodes[n].path)}
ScaleAt(M, path) == LET k == CHOOSE k \in DOMAIN M.nodes : M.nodes[k].path = path IN M.nodes[k].scale

RECURSIVE ExpTerm(_, _, _, _)
\* The exponential of a node: exp((u + its scale * ln(the sum over its children)) / the scale of its parent)
ExpTerm(M, b, scaling, n) ==
    LET path == M.nodes[n].path
        kids == ChildrenOf(M, path)
        sum  == SumOver([k \in kids |-> ExpTerm(M, b, scaling, k)], kids)
        over == IF scaling /\ Len(path) > 1 THEN ScaleAt(M, Front(path)) ELSE One
    IN IF kids = {} THEN b[n]
       ELSE IF sum = Zero \/ b[n] = Zero THEN Zero
       ELSE Mul(b[n], PowerOf(sum, Div(M.nodes[n].scale, over)))

Terms(M, b, scaling) == [n \in DOMAIN M.nodes |-> ExpTerm(M, b, scaling, n)]
TotalOf(M, t, path) == LET kids == ChildrenOf(M, path) IN SumOver([k \in kids |-> t[k]], kids)

RECURSIVE PathProb(_, _, _)
PathProb(M, t, path) ==
    IF path = <<>> THEN One
    ELSE LET n == CHOOSE k \in DOMAIN M.nodes : M.nodes[k].path = path
             sum == TotalOf(M, t, Front(path))
         IN IF sum = Zero THEN Zero ELSE Mul(PathProb(M, t, Front(path)), Div(t[n], sum))

\* Probabilities over all nodes: nests get none
Probs(M, t) == [n \in DOMAIN M.nodes |-> IF IsElemental(M, n) THEN PathProb(M, t, M.nodes[n].path) ELSE Zero]

\* A choice that can be chosen, or a nest around one, is too large to exponentiate
Ancestors(M, n) == {k \in DOMAIN M.nodes : IsPrefixOf(M.nodes[k].path, M.nodes[n].path)}
Overflows(M, b) == \E n \in DOMAIN M.nodes :
    IsElemental(M, n) /\ (\A k \in Ancestors(M, n) : b[k] # Zero) /\ (\E k \in Ancestors(M, n) : b[k] = PInf)
MightOverflow(M, b) == \E n \in DOMAIN M.nodes : b[n] = PInf

\* What a row of exponentials leads to
RowOf(M, b, scaling) ==
    IF MightOverflow(M, b) THEN [ok |-> FALSE, t |-> <<>>, p |-> <<>>, ls |-> Zero]
    ELSE LET t == TLCEval(Terms(M, b, scaling)) IN
         [ok |-> TRUE, t |-> t, p |-> TLCEval(Probs(M, t)), ls |-> TotalOf(M, t, <<>>)]

OutcomeOf(M, rows, b, pat, check) ==
    LET used == {pat[i] : i \in DOMAIN pat} IN
    IF \E k \in used : Overflows(M, b[k]) \/ (check /\ rows[k].ok /\ rows[k].ls = Zero) THEN {"UtilityBoundsError"}
    ELSE IF \E k \in used : ~rows[k].ok THEN {"ok", "UtilityBoundsError"} ELSE {"ok"}

ElementalAt(M) == SelectSeq([k \in DOMAIN M.nodes |-> k], LAMBDA k : IsElemental(M, k))

-----------------------------------------------------------------------------
\* Stochastic runs. Decision unit i has the utilities of pattern e.pat[i] and shows the results e.seen[e.at[i]].
JudgeStochastic(e) ==
    LET M == [nodes |-> e.nodes]
        rows == TLCEval([k \in DOMAIN e.b |-> RowOf(M, e.b[k], e.scaling)])
        res == OutcomeOf(M, rows, e.b, e.pat, e.check)
        el == ElementalAt(M)
        pairs == {<<e.pat[i], e.at[i]>> : i \in DOMAIN e.pat}
    IN IF ~Allowed(res, e) THEN {"outcome " \o e.res \o " of a stochastic run"}
       ELSE IF e.res # "ok" THEN {}
       ELSE (IF e.rows = e.du THEN {} ELSE {"result rows are the decision units"})
            \cup (IF e.pcols = Elemental(M) /\ e.cols = Choices(M) THEN {} ELSE {"result columns are the choices"})
            \cup (IF Len(e.at) = Len(e.pat) THEN {} ELSE {"one result per decision unit"})
            \cup UNION { LET r == rows[q[1]] o == e.seen[q[2]] IN
                   IF ~r.ok THEN {}
                   ELSE (IF Len(o.p) = Len(el) /\ \A n \in DOMAIN el : Match(r.p[el[n]], o.p[n]) THEN {}
                         ELSE {"probabilities follow from the utilities of the decision unit"})
                        \cup (IF Match(r.ls, o.ls) THEN {} ELSE {"the total is the sum of the exponentials at the top"})
                        \cup (IF Len(o.t) = Len(r.t) /\ \A n \in DOMAIN r.t : Match(r.t[n], o.t[n]) THEN {}
                              ELSE {"the exponentials of the nodes follow the recursion"})
                   : q \in pairs }

-----------------------------------------------------------------------------
\* Draws
RECURSIVE SumTo(_, _)
SumTo(p, k) == IF k = 0 THEN Zero ELSE Add(SumTo(p, k - 1), p[k])
\* The cumulative probabilities below and up to every alternative
Bounds(p) == [k \in DOMAIN p |-> [lo |-> SumTo(p, k - 1), hi |-> SumTo(p, k), pos |-> p[k] # Zero]]
LessEq(a, b) == a = b \/ NumLess(a, b)
\* Alternative k can be the one for a uniform number between lo and hi
CanPick(bd, k, lo, hi) == k \in DOMAIN bd /\ bd[k].pos /\ LessEq(bd[k].lo, hi) /\ LessEq(lo, bd[k].hi)

KeyOf(S, e) == <<IF e.seed.k = "int" THEN <<"int", e.seed.v>> ELSE <<"rs", S.rng[e.seed.name].init, S.rng[e.seed.name].used>>,
                 e.n, e.draws>>
Advance(S, e) == IF e.seed.k = "int" THEN S ELSE [S EXCEPT !.rng[e.seed.name].used = @ + 1]

\* The shape of the results that was asked for
ShapeBad(e, labels) ==
    LET single == e.draws = 1 /\ e.squeeze IN
    (IF e.rows = e.du THEN {} ELSE {"result rows are the decision units"})
    \cup (IF e.form = (IF single THEN "series" ELSE "frame") THEN {} ELSE {"the result is a series for one draw, unless not squeezed, and otherwise a table"})
    \cup (IF e.rname = e.name THEN {} ELSE {"the result carries the given name"})
    \cup (IF single \/ e.dcols = [k \in 1..e.draws |-> k - 1] THEN {} ELSE {"one column per draw"})
    \cup (IF e.kind = (CASE e.astype = "index" -> "i" [] e.astype = "category" -> "c" [] OTHER -> "s") THEN {}
          ELSE {"the result has the type that was asked for"})
    \cup (IF Len(e.picks) = e.n /\ \A i \in DOMAIN e.picks : Len(e.picks[i]) = e.draws THEN {} ELSE {"one choice per decision unit and draw"})

JudgeDraws(S, e) ==
    LET M == [nodes |-> e.nodes]
        rows == TLCEval([k \in DOMAIN e.b |-> RowOf(M, e.b[k], e.scaling)])
        res == OutcomeOf(M, rows, e.b, e.pat, TRUE)
        chs == Choices(M)
        key == KeyOf(S, e)
        shape == ShapeBad(e, chs)
        bds == TLCEval([k \in DOMAIN rows |-> IF rows[k].ok THEN TLCEval(Bounds(rows[k].p)) ELSE <<>>])
        posn == [i \in DOMAIN e.picks |-> [d \in DOMAIN e.picks[i] |->
                    IF e.astype = "index" THEN e.picks[i][d][2] + 1 ELSE Pos(chs, e.picks[i][d])]]
        feas == \A i \in DOMAIN posn : \A d \in DOMAIN posn[i] :
                    ~rows[e.pat[i]].ok \/ (posn[i][d] \in DOMAIN bds[e.pat[i]] /\ bds[e.pat[i]][posn[i][d]].pos)
        C == S.cells[key]
        right == \A i \in DOMAIN posn : \A d \in DOMAIN posn[i] :
                    ~rows[e.pat[i]].ok \/ CanPick(bds[e.pat[i]], posn[i][d], Num(C.at[i][d], C.n), Num(C.at[i][d] + 1, C.n))
        pairs == {<<e.pat[i], e.at[i]>> : i \in DOMAIN e.at}
    IN IF ~Allowed(res, e) THEN {"outcome " \o e.res \o " of a discrete run"}
       ELSE IF e.res # "ok" THEN {}
       ELSE shape
            \cup (IF shape # {} THEN {}
                  ELSE (IF feas THEN {} ELSE {"an alternative with probability zero is never chosen"})
                       \cup (IF key \in DOMAIN S.cells /\ feas /\ ~right
                             THEN {"the choice is the one whose cumulative interval contains the uniform number of the unit and draw"} ELSE {}))
            \cup (IF Len(e.at) = e.n /\ \A q \in pairs : ~rows[q[1]].ok \/ Match(rows[q[1]].ls, e.seen[q[2]].ls) THEN {}
                  ELSE {"the logsum of a discrete run is the one of a stochastic run"})

\* Whether c of n independent events with probability 1 / d each can happen: within six standard deviations
Plausible(c, n, d) == LET x == Abs(c * d - n) IN x <= 6 + 6 * d \/ (x < 46000 /\ x * x <= 36 * n * (d - 1))

Bin(C, i, d, bins) == (C.at[i][d] * bins) \div C.n
Uniform(C, rows, draws, bins) ==
    \A x \in 0..(bins - 1) : Plausible(Cardinality({q \in (1..rows) \X (1..draws) : Bin(C, q[1], q[2], bins) = x}), rows * draws, bins)
\* Pairs of numbers: those of neighbouring units for the same draw, and of successive draws of the same unit
PairsPlausible(C, P, bins) ==
    \A x \in 0..(bins - 1) : \A y \in 0..(bins - 1) :
        Plausible(Cardinality({q \in P : Bin(C, q[1][1], q[1][2], bins) = x /\ Bin(C, q[2][1], q[2][2], bins) = y}),
                  Cardinality(P), bins * bins)
StatsBad(C, rows, draws) ==
    (IF Uniform(C, rows, draws, 16) THEN {} ELSE {"draws are uniform"})
    \cup (IF \A gap \in {1, 2, 8} : PairsPlausible(C, {<<<<i, 1>>, <<i + gap, 1>>>> : i \in 1..(rows - gap)}, 4)
          THEN {} ELSE {"draws of different units are independent"})
    \cup (IF draws = 1 \/ \A gap \in {1, 2} : gap >= draws \/
                PairsPlausible(C, {<<<<i, k>>, <<i, k + gap>>>> : i \in 1..rows, k \in 1..(draws - gap)}, 4)
          THEN {} ELSE {"draws of the same unit are independent"})

JudgeCells(S, e) ==
    LET key == KeyOf(S, e)
        C == [n |-> e.count, at |-> e.cells]
        others == {k \in DOMAIN S.cells : k # key /\ k[2] = key[2] /\ k[3] = key[3] /\ S.cells[k].n = e.count}
    IN IF e.res # "ok" THEN [st |-> S, bad |-> {"outcome " \o e.res \o " of a discrete run"}]
       ELSE IF Len(e.cells) # e.n \/ \E i \in DOMAIN e.cells : Len(e.cells[i]) # e.draws
       THEN [st |-> S, bad |-> {"one choice per decision unit and draw"}]
       ELSE [st |-> [S EXCEPT !.cells = Put(S.cells, key, C)],
             bad |-> (IF key \in DOMAIN S.cells /\ S.cells[key] # C
                      THEN {"the same seed gives the same draws"} ELSE {})
                     \cup (IF e.n * e.draws >= 8 /\ \E k \in others : S.cells[k] = C
                           THEN {"different seeds give different draws"} ELSE {})
                     \cup (IF e.n >= 2000 /\ key \notin DOMAIN S.cells THEN StatsBad(C, e.n, e.draws) ELSE {})
                     \cup (IF e.draws >= 6 /\ \E i, k \in DOMAIN e.cells : i < k /\ e.n <= 200 /\ e.cells[i] = e.cells[k]
                           THEN {"units are drawn separately"} ELSE {})]

\* One draw from weights, for a uniform number that is given
JudgePick(e) ==
    LET p == [k \in DOMAIN e.w |-> Div(e.w[k], SumTo(e.w, Len(e.w)))] IN
    IF e.res = "ok" /\ CanPick(Bounds(p), e.got + 1, e.r, e.r) THEN {}
    ELSE {"the choice is the one whose cumulative interval contains the uniform number"}

JudgeLogit(S, e) ==
    CASE e.op = "stochastic" -> [st |-> S, bad |-> JudgeStochastic(e)]
      [] e.op = "draws" -> [st |-> Advance(S, e), bad |-> JudgeDraws(S, e)]
      [] e.op = "cells" -> LET j == JudgeCells(S, e) IN [st |-> Advance(j.st, e), bad |-> j.bad]
      [] e.op = "pick" -> [st |-> S, bad |-> JudgePick(e)]
      [] e.op = "state" -> [st |-> [S EXCEPT !.rng = Put(S.rng, e.name, [init |-> e.init, used |-> 0])], bad |-> {}]
      [] e.op = "noise" -> [st |-> S, bad |-> {}]
=============================================================================

------------------------------ MODULE MCAlign -------------------------------
(* All ways in which the labels of given data can relate to the decision      *)
(* units and choices of a model (C13). Every value says which labels it is    *)
(* for, so that the invariants can tell where it belongs.                     *)
EXTENDS MCBase, Seqs
CONSTANT Wide      \* Whether there are labels that the model does not know in both directions

Rows == <<N(1), N(2)>>
Starts == << <<New("m"), AddTo("m", <<>>, A, One), AddTo("m", <<>>, B, One), Units("m", Rows), Say("m", Sym("x"), <<>>, "")>> >>
Labels == {N(1), N(2), N(9)}
Names == IF Wide THEN {A, B, C} ELSE {A, B}
Orders(set) == {s \in UNION {[1..n -> set] : n \in 0..Cardinality(set)} : \A p, q \in DOMAIN s : p < q => s[p] # s[q]}
Mark(row, col) == N(10 * row[2] + col[2][1] - 64)
\* The choices of this model have one level
L1(seq) == [n \in DOMAIN seq |-> <<seq[n]>>]
Marks(idx, cols) == [r \in DOMAIN idx |-> [c \in DOMAIN cols |-> Mark(idx[r], cols[c])]]
Turned(idx, cols) == [r \in DOMAIN idx |-> [c \in DOMAIN cols |-> Mark(cols[c], idx[r])]]

Matrices == {Put1("m", "x", Matrix(L1(i), L1(c), Marks(i, c))) : i \in Orders(Labels), c \in Orders(Names) \ {<<>>}}
TurnedMatrices == {Put1("m", "x", Matrix(L1(c), L1(i), Turned(c, i))) : i \in Orders(Labels) \ {<<>>}, c \in Orders(Names)}
Vectors == {Put1("m", "x", Series("f8", i, [n \in DOMAIN i |-> Mark(i[n], A)])) : i \in Orders(Labels)}
ChoiceVectors == {Put1("m", "x", Series("f8", c, [n \in DOMAIN c |-> Mark(N(1), c[n])])) : c \in Orders(Names \cup {C})}
Arrays == {Put1("m", "x", Array("f8", [n \in 1..k |-> N(n)])) : k \in 1..3}
Partials == {Partial("m", i, L1(c), Marks(i, c), rr, rc) :
             i \in Orders(Labels) \ {<<>>}, c \in Orders(Names) \ {<<>>}, rr \in BOOLEAN, rc \in BOOLEAN}
Declarations == {DeclareMatrix("m", "x", o, N(7), rr, rc) : o \in {0, 1}, rr \in BOOLEAN, rc \in BOOLEAN}
                \cup {Declare("m", "x", "vector", o) : o \in {0, 1}}
Ops == <<Run("m", "", FALSE, FALSE)>> \o Listed(Declarations) \o Listed(Matrices) \o Listed(TurnedMatrices)
       \o Listed(Vectors) \o Listed(ChoiceVectors) \o Listed(Arrays) \o <<Say("m", Lit(0), <<>>, ""), ClearExprs("m")>>
       \o Listed(Partials)
Observers == <<1>>
Ready1(s) == "x" \in DOMAIN s.models["m"].scope
IsFlat(s) == \A n \in DOMAIN s.models["m"].exprs : s.models["m"].exprs[n].ast = Lit(0)
Enabled(s, e) ==
    LET M == s.models["m"] IN
    CASE e.op = "run" -> TRUE
      [] e.op = "declare" -> ~M.cached.set /\ ~IsFlat(s)
      [] e.op = "assign" -> Ready1(s) /\ ~M.scope["x"].has
                            /\ (e.data.t = "frame") = (M.scope["x"].k = "matrix")
                            /\ (e.data.t = "frame" => (e \in Matrices) = (M.scope["x"].o = 0) \/ e.data.idx = <<>>)
                            /\ (e \in Vectors => M.scope["x"].o = 0) /\ (e \in ChoiceVectors => M.scope["x"].o = 1)
      [] e.op = "clear_exprs" -> ~IsFlat(s) /\ M.scope = NoFn
      [] e.op = "append" -> M.exprs = <<>> /\ M.scope = NoFn
      \* At most twice
      [] e.op = "partial" -> M.scope = NoFn /\ M.exprs # <<>> /\ IsFlat(s) /\ (M.cached.set => /\ e.idx = <<<<N(2)>>>> /\ e.rr /\ e.rc
                                                                       /\ \A j \in 1..2 : M.cached.v[2][j][2] < 40)
Prepare(s, e) == IF e.op = "append" THEN [e EXCEPT !.x = [raw |-> "?"] @@ @] ELSE e
VARIABLES S, start
INSTANCE Explore

M == S.models["m"]
X == M.scope["x"]
\* Every cell has the value for its labels, or the fill
Aligned ==
    Ready1(S) /\ X.has /\ X.k = "matrix" =>
        /\ Len(X.d) = 2
        /\ \A i \in DOMAIN X.d : Len(X.d[i]) = 2 /\ \A j \in DOMAIN X.d[i] : X.d[i][j] \in {N(7), Mark(Rows[i], <<A, B>>[j])}
AlignedVectors ==
    Ready1(S) /\ X.has /\ X.k = "vector" =>
        X.d \in {<<N(1), N(2)>>, IF X.o = 0 THEN <<Mark(N(1), A), Mark(N(2), A)>> ELSE <<Mark(N(1), A), Mark(N(1), B)>>}
\* Nothing is filled in unless reindexing is allowed
FillsAllowed ==
    Ready1(S) /\ X.has /\ X.k = "matrix" =>
        /\ (~X.rrow => \A i \in 1..2 : \E j \in 1..2 : X.d[i][j] # N(7) \/ X.rcol)
        /\ (~X.rrow /\ ~X.rcol => \A i, j \in 1..2 : X.d[i][j] # N(7))
PartialAligned ==
    M.cached.set => \A i, j \in 1..2 :
        LET m == Mark(Rows[i], <<A, B>>[j]) IN M.cached.v[i][j] \in {N(0), m, N(2 * m[2])}
\* A state can be observed: the utilities are the data of the symbol
Seen ==
    LET r == Do(S, Run("m", "", FALSE, FALSE)) IN
    "ok" \in r.res => r.u = IF M.cached.set THEN M.cached.v ELSE IF ~Ready1(S) THEN <<<<Zero, Zero>>, <<Zero, Zero>>>>
                            ELSE [i \in 1..2 |-> [j \in 1..2 |-> IF X.k = "matrix" THEN X.d[i][j] ELSE X.d[IF X.o = 0 THEN i ELSE j]]]
=============================================================================

------------------------------- MODULE MCExpr -------------------------------
(* Every expression of up to two or three operators over a few operands, each *)
(* of which has several values (C07).                                         *)
EXTENDS MCBase, Seqs
CONSTANT Deep

Du == <<N(3), N(1), N(7), N(5)>>
Idx == [n \in DOMAIN Du |-> <<Du[n]>>]
Vec(name, dt, v) == <<Declare("m", name, "vector", 0), Put1("m", name, Array(dt, v))>>
Base == <<New("m"), AddTo("m", <<>>, A, One), AddTo("m", <<>>, B, One), Units("m", Du)>>
        \o Vec("i", "i8", <<N(3), N(1), N(2), N(4)>>)
        \o Vec("p", "b", <<Bool(TRUE), Bool(FALSE), Bool(TRUE), Bool(FALSE)>>)
             \o Vec("q", "b", <<Bool(TRUE), Bool(TRUE), Bool(FALSE), Bool(FALSE)>>)
\* With and without not-a-number
Starts == << Base \o Vec("x", "f8", <<<<"n", 1, 2>>, N(2), N(2), N(1)>>), Base \o Vec("x", "f8", <<<<"n", 1, 2>>, N(2), NaN, N(1)>>) >>

Op2(o, a, b) == <<"bin", o, a, b>>
Un(o, a) == <<"un", o, a>>
Cmp(o, a, b) == <<"cmp", <<o>>, <<a, b>>>>
Logic(o, a, b) == IF o \in {"and", "or"} THEN <<"bool", o, <<a, b>>>> ELSE <<"bin", o, a, b>>
N0 == {Sym("i"), Sym("x"), Lit(2)}
V0 == {Sym("i"), Sym("x")}
B0 == {Sym("p"), Sym("q")}
N1 == {Un("-", a) : a \in V0} \cup {Op2(o, a, b) : o \in {"+", "-", "*", "/"}, a \in V0, b \in N0}
      \cup {Op2(o, Lit(2), b) : o \in {"+", "-", "*", "/"}, b \in V0}
      \cup {Op2("**", a, Lit(2)) : a \in V0}
C1 == {Cmp(o, a, b) : o \in {"<", "<=", "==", "!="}, a \in V0, b \in N0} \cup {Cmp(">=", Lit(2), Sym("i")), Cmp(">", Lit(2), Sym("x"))}
B1 == {Un("not", a) : a \in B0} \cup {Logic(o, a, b) : o \in {"and", "or", "&", "|", "^"}, a \in {Sym("p")}, b \in {Sym("q")}}
N2 == {Un("-", a) : a \in N1} \cup {Op2(o, a, b) : o \in {"+", "-", "*", "/"}, a \in N1, b \in V0}
      \cup {Op2(o, b, a) : o \in {"+", "-", "*", "/"}, a \in N1, b \in V0} \cup {Op2("**", a, Lit(2)) : a \in N1}
C2 == {Cmp(o, a, b) : o \in {"<", ">=", "=="}, a \in N1, b \in V0} \cup {Cmp(o, b, a) : o \in {"<=", "!="}, a \in N1, b \in V0}
      \cup {<<"cmp", <<o1, o2>>, <<a, b, c>>>> : o1 \in {"<", ">", "<=", "=="}, o2 \in {"<", ">=", "!="}, a \in N0, b \in V0, c \in V0}
B2 == {Un("not", a) : a \in B1 \cup C1} \cup {Logic(o, a, b) : o \in {"and", "or", "&", "|", "^"}, a \in B1 \cup C1, b \in {Sym("q")}}
      \cup {Logic(o, b, a) : o \in {"and", "or", "&", "|", "^"}, a \in B1 \cup C1, b \in {Sym("p")}}
Where2 == {<<"call", "where", <<c, a, b>>>> : c \in B1 \cup C1 \cup B0, a \in {Sym("x"), Op2("-", Sym("i"), Sym("x")), Un("-", Sym("i"))}, b \in {Sym("i"), Lit(2)}}
Three == IF ~Deep THEN {}
         ELSE {Logic(o, a, b) : o \in {"and", "or", "&", "|", "^"}, a \in B1 \cup C1, b \in B1 \cup C1}
              \cup {Un("not", a) : a \in B2}
              \cup {<<"bool", o, <<a, b, c>>>> : o \in {"and", "or"}, a \in {Un("not", Sym("p")), Sym("p")}, b \in C1, c \in B1}
              \cup {Op2(o, a, b) : o \in {"+", "-", "*", "/"}, a \in N1, b \in N1}
              \cup {Op2(o, a, Sym("i")) : o \in {"-", "/"}, a \in N2}
              \cup {Op2(o, Sym("i"), a) : o \in {"-", "/"}, a \in N2}
              \cup {Cmp(o, a, b) : o \in {"<", "=="}, a \in N1, b \in N1}
All == N1 \cup C1 \cup B1 \cup N2 \cup C2 \cup B2 \cup Where2 \cup Three
Ops == <<Run("m", "", FALSE, FALSE), ClearExprs("m")>> \o Listed({Say("m", e, <<>>, "") : e \in All})
       \o Listed({Say("m", e, <<B>>, "") : e \in N1 \cup B1})
Observers == <<1>>
Enabled(s, e) ==
    CASE e.op = "append" -> s.models["m"].exprs = <<>>
                            /\ (NaN \in Range(s.models["m"].scope["x"].d) => e.x.flt = <<>> /\ e.x.ast \in C1 \cup C2 \cup B2 \cup Where2)
      [] OTHER -> s.models["m"].exprs # <<>>
Prepare(s, e) == IF e.op = "append" THEN [e EXCEPT !.x = [raw |-> "?"] @@ @] ELSE e
VARIABLES S, start
INSTANCE Explore

M == S.models["m"]
X == M.exprs[1].ast
V(e, i) == Eval(e, [mode |-> "cell", frames |-> S.frames, cls |-> S.cls, syms |-> M.scope, i |-> i, j |-> 1, ch |-> Choices(M)])
Same(a, b) == \A i \in DOMAIN Du : LET v == V(a, i) w == V(b, i) IN IsAny(v) \/ IsAny(w) \/ AsNum(v) = AsNum(w)
HasNaN(a) == \E i \in DOMAIN Du : IsNaN(V(a, i))
Opp(o) == CASE o = "<" -> ">=" [] o = "<=" -> ">" [] o = ">" -> "<=" [] o = ">=" -> "<" [] o = "==" -> "!=" [] o = "!=" -> "=="
Turn(o) == CASE o = "<" -> ">" [] o = "<=" -> ">=" [] o = ">" -> "<" [] o = ">=" -> "<=" [] OTHER -> o
\* What is known of the operators otherwise
Laws(e) ==
    CASE e[1] = "un" /\ e[2] = "not" /\ e[3][1] = "bool" ->
            Same(e, Logic(IF e[3][2] = "and" THEN "or" ELSE "and", Un("not", e[3][3][1]), Un("not", e[3][3][2])))
      [] e[1] = "un" /\ e[2] = "not" /\ e[3][1] = "cmp" -> Len(e[3][2]) > 1 \/ HasNaN(e[3][3][1]) \/ HasNaN(e[3][3][2])
            \/ Same(e, Cmp(Opp(e[3][2][1]), e[3][3][1], e[3][3][2]))
      [] e[1] = "un" /\ e[2] = "-" -> Same(e, Op2("-", Lit(0), e[3])) /\ Same(Un("-", e), e[3])
      [] e[1] = "cmp" /\ Len(e[2]) = 1 -> Same(e, Cmp(Turn(e[2][1]), e[3][2], e[3][1]))
      [] e[1] = "cmp" -> Same(e, Logic("and", Cmp(e[2][1], e[3][1], e[3][2]), Cmp(e[2][2], e[3][2], e[3][3])))
      [] e[1] = "bin" /\ e[2] = "-" -> Same(e, Op2("+", e[3], Un("-", e[4])))
      [] e[1] = "bin" /\ e[2] = "+" -> Same(e, Op2("+", e[4], e[3])) /\ Same(e, Op2("-", e[3], Un("-", e[4])))
      [] e[1] = "bin" /\ e[2] = "*" -> Same(e, Op2("*", e[4], e[3]))
                                       /\ (e[4][1] = "bin" /\ e[4][2] = "+" => Same(e, Op2("+", Op2("*", e[3], e[4][3]), Op2("*", e[3], e[4][4]))))
      [] e[1] = "bin" /\ e[2] = "/" -> Same(Op2("*", e, e[4]), e[3]) \/ HasNaN(e[4])
      [] e[1] = "bin" /\ e[2] = "**" -> Same(e, Op2("*", e[3], e[3]))
      [] e[1] = "bin" /\ e[2] = "&" -> Same(e, Logic("and", e[3], e[4]))
      [] e[1] = "bin" /\ e[2] = "|" -> Same(e, Un("not", Logic("and", Un("not", e[3]), Un("not", e[4]))))
      [] e[1] = "bin" /\ e[2] = "^" -> Same(e, Logic("or", Logic("and", e[3], Un("not", e[4])), Logic("and", Un("not", e[3]), e[4])))
      [] e[1] = "call" -> Same(e, <<"call", "where", <<Un("not", e[3][1]), e[3][3], e[3][2]>>>>)
      [] OTHER -> TRUE
LawsHold == M.exprs # <<>> => Laws(X)
\* Every kind of expression gives a value of its kind in every unit
Kinds == M.exprs # <<>> => \A i \in DOMAIN Du : LET v == V(X, i) IN
    IF X[1] \in {"cmp", "bool"} \/ (X[1] = "un" /\ X[2] = "not") \/ (X[1] = "bin" /\ X[2] \in {"&", "|", "^"}) THEN IsBool(v) \/ IsAny(v)
    ELSE IsNum(v) \/ IsNaN(v) \/ IsInf(v) \/ IsAny(v)
\* A comparison with not-a-number is false, except that of difference
NaNs == (M.exprs # <<>> /\ X[1] = "cmp" /\ Len(X[2]) = 1) => \A i \in DOMAIN Du :
    (IsNaN(V(X[3][1], i)) \/ IsNaN(V(X[3][2], i))) => V(X, i) = Bool(X[2][1] = "!=")
=============================================================================

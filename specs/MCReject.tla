------------------------------ MODULE MCReject ------------------------------
(* Expressions that can and cannot be accepted, offered in all orders and     *)
(* groups (C08). Names that are plain in some and have attributes in others   *)
(* meet in every way; unsupported constructs have names around and in them,   *)
(* which must not leave a trace.                                              *)
EXTENDS MCBase, Seqs
CONSTANT Most      \* The largest number of expressions

Bad(what, kids) == <<"bad", what, kids>>
Kinds == {"ifexp", "subscript", "listcomp", "dictcomp", "starred", "badfunc", "badagg", "kwagg", "baddictval", "baddicttext",
          "baddictneg", "baddictkey", "attrofcall", "baddictinv", "baddictnot", "baddictname", "baddictdict", "baddictlater",
          "baddictspread", "setcomp", "generator", "list", "tuple", "stragg", "callattr", "manyargs",
          "is", "isnot", "in", "notin", "thenis", "uadd", "invert", "baddictcomplex"}
Arity(k) == IF k \in {"ifexp", "thenis"} THEN 3 ELSE IF k \in {"subscript", "listcomp", "dictcomp", "setcomp", "generator", "list", "tuple", "manyargs",
                          "is", "isnot", "in", "notin"} THEN 2 ELSE 1
U == Sym("u")
Uq == Attr(<<"u", "q">>)
Table1 == FrameOp("f", <<"q">>, [q |-> "i"], [q |-> <<N(4), N(6)>>], <<<<N(1)>>, <<N(2)>>>>, <<"i0">>)
Starts == << <<New("m"), AddTo("m", <<>>, A, One), AddTo("m", <<>>, B, One), Units("m", <<N(1), N(2)>>), Table1,
               Declare("m", "n", "number", 0), Put1("m", "n", Scalar(N(3))),
               Declare("m", "t", "table", 0), Put1("m", "t", [t |-> "table", fid |-> "f"])>> >>
Good == {Sym("n"), Attr(<<"t", "q">>), Plus(Sym("n"), Attr(<<"t", "q">>)), U, Uq, Times(Lit(2), Uq), <<"dict", << << <<A>>, N(2)>> >> >>}
Clash == {Plus(U, Uq), Plus(Uq, U), Sym("t"), Attr(<<"n", "q">>), <<"agg", <<"u", "l">>, "sum", U>>,
          <<"cmp", <<"<", "<">>, <<U, Lit(1), Uq>>>>, <<"call", "where", <<Lit(1), Sym("t"), Attr(<<"t", "q">>)>>>>,
          <<"un", "-", Plus(Attr(<<"n", "q">>), Sym("n"))>>}
Unsupported == UNION { {Plus(U, Bad(k, [i \in 1..Arity(k) |-> Uq])), Plus(Bad(k, [i \in 1..Arity(k) |-> U]), Uq),
                        Times(Lit(2), <<"un", "-", Bad(k, [i \in 1..Arity(k) |-> IF i = 1 THEN U ELSE Sym("n")])>>)} : k \in Kinds }
Texts == {"a +", "(a", "a b", "x == ", "not", "a[", "lambda", "return a"}
Broken == {[Say("m", Bad("text", <<>>), <<>>, g) EXCEPT !.x = [raw |-> t] @@ @] : t \in Texts, g \in {"", "g1"}}
Ops == Listed({Say("m", a, <<>>, g) : a \in Good \cup Clash, g \in {"", "g1", "g2"}}
              \cup {Say("m", a, <<>>, g) : a \in Unsupported, g \in {"", "g1"}} \cup Broken
              \cup {Say("m", Sym("n"), <<A>>, ""), Say("m", Plus(U, Sym("n")), <<B>>, "g1")})
       \o <<DropGroup("m", "g1"), DropGroup("m", "g2"), ClearExprs("m"), Declare("m", "NAN", "number", 0), Declare("m", "NEG_INF", "vector", 0),
            Declare("m", "OUT", "table", 0), Look("m"), Validate("m", ""), Validate("m", "g1"), Run("m", "", FALSE, TRUE), Run("m", "g1", FALSE, TRUE)>>
Observers == <<Len(Ops) - 1, Len(Ops) - 3>>
Enabled(s, e) == IF e.op = "append" THEN Len(s.models["m"].exprs) < Most \/ ~Accepted(s.models["m"], [raw |-> "?"] @@ e.x) ELSE TRUE
Prepare(s, e) == IF e.op = "append" THEN [e EXCEPT !.x = [raw |-> "?"] @@ @] ELSE e
VARIABLES S, start
INSTANCE Explore

M == S.models["m"]
Offers == {k \in DOMAIN Ops : Ops[k].op = "append"}
Takes(s, k) == "ok" \in Do(s, Prepare(s, Ops[k])).res
Then(s, k) == React(s, Prepare(s, Ops[k]))
Consistent == Simple(M.exprs) \cap Chained(M.exprs) = {}
\* What is rejected changes nothing, wherever it comes
NoTrace == \A k \in Offers : ~Takes(S, k) => Then(S, k) = S
\* Unsupported constructs and clashes within are never accepted, in whatever state the model is
Never == \A k \in Offers : BadShape(Ops[k].x.ast) => ~Takes(S, k)
\* It does not matter in which order two expressions are offered, nor in which groups
OrderFree == Len(M.exprs) = Most \/ (\A k, j \in Offers : Takes(S, k) /\ Takes(S, j) /\ k < j => Takes(Then(S, k), j) = Takes(Then(S, j), k))
GroupFree == \A k, j \in Offers : Ops[k].x.ast = Ops[j].x.ast /\ Ops[k].x.flt = Ops[j].x.flt => Takes(S, k) = Takes(S, j)
\* A group that is dropped again leaves no trace either
Undone == \A k \in Offers : Takes(S, k) /\ Ops[k].x.grp = "g2" /\ "g2" \notin Groups(M)
                => React(Then(S, k), DropGroup("m", "g2")) = S
Words == \A w \in {"NAN", "NEG_INF", "OUT"} : Do(S, Declare("m", w, "number", 0)).res = {"SyntaxError"}
=============================================================================

------------------------------- MODULE MCEval -------------------------------
(* Expressions and pivot tables over a frame with links, and over a plain one *)
(* into which the same values were written, with all sorts of local variables *)
(* (C19).                                                                     *)
EXTENDS MCBase, Seqs
CONSTANT Deep

Ix(n) == [k \in 1..n |-> <<N(k)>>]
H(k) == <<"n", k, 2>>
FrameA == FrameOp("a", <<"k", "v", "p">>, [k |-> "i", v |-> "i", p |-> "b"],
                  [k |-> <<N(2), N(9), N(1), N(2)>>, v |-> <<N(3), N(1), N(2), N(1)>>, p |-> <<Bool(TRUE), Bool(FALSE), Bool(TRUE), Bool(FALSE)>>],
                  Ix(4), <<"i0">>)
FrameB == FrameOp("b", <<"k", "n", "w", "m">>, [k |-> "i", n |-> "i", w |-> "f", m |-> "i"],
                  [k |-> <<N(1), N(2), N(3)>>, n |-> <<N(4), N(6), N(8)>>, w |-> <<N(5), Half, N(7)>>, m |-> <<N(7), N(8), N(7)>>], Ix(3), <<"i0">>)
FrameC == FrameOp("c", <<"m", "u">>, [m |-> "i", u |-> "i"], [m |-> <<N(8), N(7)>>, u |-> <<N(11), N(13)>>], Ix(2), <<"i0">>)
FrameD == FrameOp("d", <<"k", "w">>, [k |-> "i", w |-> "i"], [k |-> <<N(8), N(9), N(9)>>, w |-> <<N(1), N(2), N(4)>>], Ix(3), <<"i0">>)
\* What the links of a give, by hand
Plain == [FrameOp("q", <<"k", "v", "p", "yn", "yw", "yxu">>, [k |-> "i", v |-> "i", p |-> "b", yn |-> "i", yw |-> "f", yxu |-> "i"],
                  FrameA.data @@ [yn |-> <<N(6), N(0), N(4), N(6)>>, yw |-> <<Half, NaN, N(5), Half>>, yxu |-> <<N(11), N(0), N(13), N(11)>>],
                  Ix(4), <<"i0">>) EXCEPT !.ldf = FALSE]
On(c) == [NoArgs EXCEPT !.on = <<Name(c)>>]
FrameE == FrameOp("e", <<"k">>, [k |-> "i"], [k |-> <<N(9), N(2), N(3)>>], Ix(3), <<"i0">>)
Links(pre) == << LinkOp("a", "b", "y", On("k"), pre), LinkOp("b", "c", "x", On("m"), pre),
                 LinkOp("e", "a", "z", On("k"), pre), LinkOp("e", "d", "y", On("k"), pre) >>
Starts == << <<FrameA, FrameB, FrameC, FrameD, FrameE, [Plain EXCEPT !.ldf = TRUE]>> \o Links(TRUE),
             <<FrameA, FrameB, FrameC, FrameD, FrameE, [Plain EXCEPT !.ldf = TRUE]>> \o Links(FALSE) >>

One0(v) == [arr |-> FALSE, v |-> v, dt |-> "i"]
Many(v) == [arr |-> TRUE, v |-> v, dt |-> "i"]
Locals == << NoFn, [x |-> One0(N(5))], [x |-> Many(<<N(1), N(2), N(3), N(4)>>), v |-> One0(N(100))], [x |-> One0(N(7)), y |-> One0(N(4)), k |-> Many(<<N(0), N(0), N(0), N(0)>>)] >>
LocalsE == << NoFn, [x |-> Many(<<N(1), N(2), N(3)>>), w |-> One0(N(9))] >>
Nums == {Sym("v"), Sym("x"), Attr(<<"y", "n">>), Attr(<<"y", "w">>), Attr(<<"y", "x", "u">>), Lit(2)}
NumsE == {Sym("k"), Sym("x"), <<"agg", <<"z">>, "sum", Sym("v")>>, <<"agg", <<"z">>, "count", Sym("v")>>,
          <<"agg", <<"z">>, "max", Plus(Sym("v"), Attr(<<"y", "n">>))>>, <<"agg", <<"y">>, "mean", Sym("w")>>, <<"agg", <<"z">>, "sum", Plus(Sym("v"), Sym("x"))>>}
Bin2(op, a, b) == IF op \in {"+", "*"} THEN <<"bin", op, a, b>> ELSE <<"cmp", <<op>>, <<a, b>>>>
Literal(e) == e[1] = "num"
Pairs(set) == UNION {{Bin2(op, a, b) : op \in {"+", "*", "<", "=="}} : a \in set, b \in set}
Two(set) == {x \in Pairs(set) : \E k \in DOMAIN Kids(x) : ~Literal(Kids(x)[k])}
More == {<<"bool", "and", <<Sym("p"), <<"cmp", <<"<">>, <<Attr(<<"y", "n">>), Lit(5)>>>>>>>>, <<"un", "not", Sym("p")>>,
         <<"call", "where", <<Sym("p"), Attr(<<"y", "x", "u">>), Sym("v")>>>>,
         <<"cmp", <<"<", "<=">>, <<Lit(0), Sym("v"), Attr(<<"y", "n">>)>>>>, <<"un", "-", Attr(<<"y", "w">>)>>,
         <<"call", "where", <<Sym("p"), <<"neginf">>, Attr(<<"y", "n">>)>>>>, <<"cmp", <<">">>, <<Sym("v"), <<"neginf">>>>>>,
         <<"call", "where", <<Sym("p"), <<"nan", "NaN">>, Attr(<<"y", "w">>)>>>>, Plus(Sym("v"), <<"nan", "None">>)}
Bad == {Plus(Sym("v"), Sym("nosuch")), Plus(Sym("v"), Attr(<<"y", "nosuch">>)), Plus(Attr(<<"nosuch", "n">>), Lit(1)), Attr(<<"y", "x", "nosuch">>),
        Plus(Sym("v"), <<"dict", << << <<A>>, N(2)>> >> >>), Plus(Sym("y"), Attr(<<"y", "n">>)),
        <<"bad", "ifexp", <<Sym("v"), Sym("v"), Sym("v")>>>>, <<"bad", "subscript", <<Sym("v"), Lit(1)>>>>, Plus(Sym("v"), <<"bad", "badfunc", <<Sym("v")>>>>)}
Eval1(f, ast, loc, nat) == [op |-> "eval", dom |-> "frame", f |-> f, ast |-> ast, loc |-> loc, nat |-> nat, out |-> "", cast |-> TRUE, passloc |-> TRUE]

Item(name) == [name |-> name, ast |-> Sym(name), col |-> TRUE]
Expr(ast) == [name |-> "", ast |-> ast, col |-> FALSE]
\* By an item of the frame with links, and by the corresponding one of the plain frame
Keys == {<<Item("p"), Item("p")>>, <<Item("v"), Item("v")>>, <<Expr(Attr(<<"y", "n">>)), Item("yn")>>, <<Expr(Attr(<<"y", "x", "u">>)), Item("yxu")>>,
         <<Expr(<<"cmp", <<">">>, <<Attr(<<"y", "n">>), Lit(4)>>>>), Expr(<<"cmp", <<">">>, <<Sym("yn"), Lit(4)>>>>)>>}
Vals == {<<Item("k"), Item("k")>>, <<Expr(Attr(<<"y", "w">>)), Item("yw")>>, <<Expr(Plus(Sym("k"), Attr(<<"y", "x", "u">>))), Expr(Plus(Sym("k"), Sym("yxu")))>>}
Funcs == IF Deep THEN {"sum", "mean", "count", "max", "min", "first", "last"} ELSE {"sum", "count", "first"}
Pivot(f, i, c, v, func) == [op |-> "pivot", dom |-> "frame", f |-> f, index |-> i, columns |-> c, values |-> v, func |-> func, defaultfunc |-> FALSE, fill |-> <<>>,
                            forms |-> [index |-> "list", columns |-> "list", values |-> "list"]]
Side(items, n) == [k \in DOMAIN items |-> items[k][n]]
Shapes == {<<<<i>>, <<>>>> : i \in Keys} \cup {<<<<ic[1]>>, <<ic[2]>>>> : ic \in {x \in Keys \X Keys : x[1] # x[2]}}
          \cup (IF Deep THEN {<<<<ic[1], ic[2]>>, <<>>>> : ic \in {x \in Keys \X Keys : x[1] # x[2]}} ELSE {})
Asked == {<<s[1], s[2], v, fn>> : s \in Shapes, v \in Vals, fn \in Funcs}
PivotOf(p, n) == Pivot(<<"a", "q">>[n], Side(p[1], n), Side(p[2], n), <<p[3][n]>>, p[4])

Ops == Listed(UNION { {Eval1("a", ast, Locals[l], 0) : ast \in Two(Nums) \cup More \cup Bad} : l \in (IF Deep THEN DOMAIN Locals ELSE {2, 3, 4}) }
              \cup UNION { {Eval1("e", ast, LocalsE[l], 0) : ast \in Two(NumsE)} : l \in DOMAIN LocalsE }
              \cup {Eval1("a", Plus(Sym("v"), Lit(1)), NoFn, n) : n \in {1, 2}}
              \cup {PivotOf(p, n) : p \in Asked, n \in {1, 2}})
Observers == <<>>
Enabled(s, e) == TRUE
Prepare(s, e) == e
VARIABLES S, start
INSTANCE Explore

Ok(e) == "ok" \in DoFrame(S, e).res
Evals == {k \in DOMAIN Ops : Ops[k].op = "eval"}
\* Columns take precedence, so that variables with their names make no difference
ColumnsWin ==
    \A k \in Evals : Ok(Ops[k]) =>
        LET e == Ops[k] cols == Range(S.frames[e.f].cols) IN
        EvalAll(S, e) = EvalAll(S, [e EXCEPT !.loc = [n \in (DOMAIN e.loc) \ cols |-> e.loc[n]]])
\* Names have to be known, and links and columns of links
Understood ==
    \A k \in Evals : Ops[k].ast \in Bad \/ Ops[k].nat > 0 => ~Ok(Ops[k])
\* Values through links are those written into the plain frame
RECURSIVE Written(_)
Written(x) ==
    CASE x = Attr(<<"y", "n">>) -> Sym("yn")
      [] x = Attr(<<"y", "w">>) -> Sym("yw")
      [] x = Attr(<<"y", "x", "u">>) -> Sym("yxu")
      [] x[1] = "bin" -> <<"bin", x[2], Written(x[3]), Written(x[4])>>
      [] x[1] = "cmp" -> <<"cmp", x[2], [n \in DOMAIN x[3] |-> Written(x[3][n])]>>
      [] OTHER -> x
AsWritten ==
    \A k \in Evals : (Ops[k].f = "a" /\ Ok(Ops[k]) /\ Ops[k].ast \in Pairs(Nums)) =>
        EvalAll(S, Ops[k]) = EvalAll(S, [Ops[k] EXCEPT !.f = "q", !.ast = Written(@)])
PivotsAgree == \A p \in Asked : PivotExpected(S, PivotOf(p, 1)) = PivotExpected(S, PivotOf(p, 2))
\* Every row is in exactly one cell
CountsAdd == \A p \in Asked : p[4] = "count" /\ p[3][1].name = "k" =>
    SumSeq(LET c == Listed(PivotExpected(S, PivotOf(p, 1))) IN [n \in DOMAIN c |-> c[n][4]]) = N(4)
=============================================================================

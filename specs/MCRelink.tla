------------------------------ MODULE MCRelink ------------------------------
(* Linking again and again, with every sort of specification, good or not,    *)
(* deferred or not, in between indexing, changing keys and asking (C18).      *)
EXTENDS MCBase, Seqs
CONSTANT Rekeys

Ix(n) == [k \in 1..n |-> <<N(k)>>]
Ix2 == << <<N(1), N(1)>>, <<N(1), N(2)>>, <<N(2), N(1)>> >>
FrameA == FrameOp("a", <<"k", "u", "v">>, [k |-> "i", u |-> "i", v |-> "i"],
                  [k |-> <<N(2), N(9), N(1)>>, u |-> <<N(1), N(1), N(2)>>, v |-> <<N(31), N(32), N(33)>>], Ix(3), <<"i0">>)
FrameB == FrameOp("b", <<"k", "u", "w">>, [k |-> "i", u |-> "i", w |-> "i"],
                  [k |-> <<N(1), N(2), N(3)>>, u |-> <<N(2), N(2), N(1)>>, w |-> <<N(21), N(22), N(23)>>], Ix(3), <<"i0">>)
FrameC == FrameOp("c", <<"k", "u", "w">>, [k |-> "i", u |-> "i", w |-> "i"],
                  [k |-> <<N(9), N(9), N(2)>>, u |-> <<N(1), N(2), N(1)>>, w |-> <<N(41), N(42), N(43)>>], Ix2, <<"i0", "i1">>)
Starts == << <<FrameA, FrameB, FrameC>>, <<FrameA, [FrameB EXCEPT !.ldf = FALSE], FrameC>> >>
L(a) == {LinkOp("a", t, "z", a, pre) : t \in {"b", "c"}, pre \in BOOLEAN}
Specs == { NoArgs,
           [NoArgs EXCEPT !.on = <<Name("k")>>], [NoArgs EXCEPT !.on = <<Name("u")>>], [NoArgs EXCEPT !.on = <<Name("nope")>>],
           [NoArgs EXCEPT !.on_self = <<Name("k")>>], [NoArgs EXCEPT !.on_other = <<Name("k")>>],
           [NoArgs EXCEPT !.on_self = <<Name("u"), Name("k")>>], [NoArgs EXCEPT !.on = <<Name("u"), Name("k")>>],
           [NoArgs EXCEPT !.levels = <<Name("i0")>>], [NoArgs EXCEPT !.levels = <<Name("i1")>>],
           [NoArgs EXCEPT !.on_self = <<Name("k")>>, !.other_levels = <<Name("i0")>>],
           [NoArgs EXCEPT !.self_levels = <<Name("i0")>>, !.on_other = <<Name("u")>>],
           [NoArgs EXCEPT !.on = <<Name("k")>>, !.levels = <<Name("i0")>>],
           [NoArgs EXCEPT !.on_self = <<Name("k")>>, !.self_levels = <<Name("i0")>>] }
Other(l) == [l EXCEPT !.name = "y"]
Compute(r) == [op |-> "compute", dom |-> "frame", f |-> "a", refresh |-> r]
Summary == [op |-> "summary", dom |-> "frame", f |-> "a"]
Target(n) == [op |-> "target", dom |-> "frame", f |-> "a", name |-> n]
Rekey1(f, c, v) == [op |-> "rekey", dom |-> "frame", f |-> f, col |-> c, v |-> v]
Ops == << Summary, LookupOp("a", <<"z", "w">>), AggOp("a", <<"z">>, "sum", <<"sym", "w">>, Zero), LookupOp("a", <<"y", "w">>), Target("z"), Target("y"),
          Compute(TRUE), Compute(FALSE) >>
       \o (IF Rekeys THEN << Rekey1("a", "k", <<N(3), N(2), N(9)>>), Rekey1("b", "k", <<N(9), N(1), N(2)>>) >> ELSE <<>>)
       \o Listed(UNION {L(a) : a \in Specs})
       \o <<Other(LinkOp("a", "b", "z", [NoArgs EXCEPT !.on = <<Name("k")>>], FALSE))>>
Observers == <<1, 2, 3>>
Good(s) == "z" \in DOMAIN s.frames["a"].links
Enabled(s, e) ==
    CASE e.op = "rekey" -> Good(s) /\ s.frames[e.f].data["k"] # e.v /\ (e.f = "b" => s.frames["a"].data["k"][1] = N(2))
      [] e.op = "link" /\ e.name = "y" -> "y" \notin DOMAIN s.frames["a"].links /\ Good(s)
      [] e.op = "agg" -> Good(s)
      [] e.op = "lookup" -> e.names[1] \in DOMAIN s.frames["a"].links
      [] OTHER -> TRUE
Prepare(s, e) == e
VARIABLES S, start
INSTANCE Explore

F == S.frames["a"]
\* What does not give a link leaves those that there are
Rejected ==
    \A k \in DOMAIN Ops : Ops[k].op = "link" /\ "ok" \notin DoFrame(S, Ops[k]).res => React(S, Ops[k]) = S
\* Whether a link is indexed has no bearing on what it gives
NoPre(s) == [s EXCEPT !.frames["a"].links = [n \in DOMAIN @ |-> [@[n] EXCEPT !.pre = "?"]]]
Transparent ==
    /\ \A r \in BOOLEAN : NoPre(React(S, Compute(r))) = NoPre(S)
    /\ \A k \in DOMAIN Ops : Ops[k].op = "link" =>
        NoPre(React(S, [Ops[k] EXCEPT !.precompute = TRUE])) = NoPre(React(S, [Ops[k] EXCEPT !.precompute = FALSE]))
\* A new link of the same name is as if there had been no other
Forgotten ==
    \A k \in DOMAIN Ops : Ops[k].op = "link" /\ DoFrame(S, Ops[k]).res = {"ok"} =>
        React(S, Ops[k]).frames["a"].links[Ops[k].name]
        = React([S EXCEPT !.frames["a"].links = NoFn], Ops[k]).frames["a"].links[Ops[k].name]
\* Contradictions are never accepted
Contradictions ==
    \A k \in DOMAIN Ops : Ops[k].op = "link" =>
        LET a == Ops[k].args IN
        ((a.on # <<>> /\ a.levels # <<>>) \/ (a.on_self # <<>> /\ a.self_levels # <<>>)) => LinkSpec(S, Ops[k]).res = {"LinkageSpecificationError"}
Others == \A k \in DOMAIN Ops : Ops[k].op = "link" /\ Ops[k].name = "z" /\ "y" \in DOMAIN F.links =>
    React(S, Ops[k]).frames["a"].links["y"] = F.links["y"]
=============================================================================

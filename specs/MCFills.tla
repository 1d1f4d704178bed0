------------------------------ MODULE MCFills -------------------------------
(* Everything that can be done with fill values: package-wide, of a frame, of *)
(* a column, and for a while, nested and closed normally or by errors (C17).  *)
EXTENDS MCBase, Seqs
CONSTANTS Kinds,    \* The types of values whose fills are changed
          Nested    \* How many temporary changes can be open at once

FrameA == FrameOp("a", <<"k">>, [k |-> "i"], [k |-> <<N(1), N(9)>>], <<<<N(1)>>, <<N(2)>>>>, <<"i0">>)
FrameB == FrameOp("b", <<"i", "f", "s", "b", "j">>, [i |-> "i", f |-> "f", s |-> "s", b |-> "b", j |-> "i"],
                  [i |-> <<N(1)>>, f |-> <<N(2)>>, s |-> <<A>>, b |-> <<Bool(TRUE)>>, j |-> <<N(3)>>], <<<<N(1)>>>>, <<"i0">>)
FrameC == FrameOp("c", <<"i", "f", "s", "b">>, [i |-> "i", f |-> "f", s |-> "s", b |-> "b"],
                  [i |-> <<N(1)>>, f |-> <<N(2)>>, s |-> <<A>>, b |-> <<Bool(TRUE)>>], <<<<N(1)>>>>, <<"i0">>)
ToB == LinkOp("a", "b", "z", [NoArgs EXCEPT !.on_self = <<Name("k")>>], TRUE)
ToC == LinkOp("a", "c", "y", [NoArgs EXCEPT !.on_self = <<Name("k")>>], TRUE)
Starts == << <<FrameA, FrameB, [FrameC EXCEPT !.ldf = FALSE], ToB, ToC>>, <<FrameA, FrameB, FrameC, ToB, ToC>> >>
Owners == {"", "b"}
Values == [i |-> {N(0), N(5)}, f |-> {N(0), <<"n", 3, 2>>}, s |-> {B}, b |-> {Bool(TRUE)}]
FillsOf == {[n \in {k} |-> v] : <<k, v>> \in {x \in {"i", "f", "s", "b"} \X UNION {Values[n] : n \in DOMAIN Values} : x[1] \in Kinds /\ x[2] \in Values[x[1]]}}
           \cup (IF {"i", "f"} \subseteq Kinds THEN {[n \in {"i", "f"} |-> IF n = "i" THEN N(7) ELSE N(8)]} ELSE {})
SetF(who, f) == [op |-> "setfill", dom |-> "frame", who |-> who, fills |-> f, bad |-> FALSE]
Temp(who, f) == [op |-> "tempfill", dom |-> "frame", who |-> who, fills |-> f, bad |-> FALSE]
End(err) == [op |-> "endfill", dom |-> "frame", error |-> err]
Reset(who) == [op |-> "resetfill", dom |-> "frame", who |-> who]
ColFill(col, v) == [op |-> "colfill", dom |-> "frame", f |-> "b", col |-> col, v |-> v]
Ops == << LookupOp("a", <<"z", "i">>), LookupOp("a", <<"z", "f">>), LookupOp("a", <<"z", "s">>), LookupOp("a", <<"z", "b">>),
          LookupOp("a", <<"z", "j">>), LookupOp("a", <<"y", "i">>), LookupOp("a", <<"y", "f">>),
          End(FALSE), End(TRUE), Reset(""), Reset("b"), ColFill("i", N(0)), ColFill("j", N(4)), ColFill("nope", N(4)),
          [SetF("", NoFn) EXCEPT !.bad = TRUE], [SetF("b", [i |-> N(5)]) EXCEPT !.bad = TRUE] >>
       \o Listed({SetF(w, f) : w \in Owners, f \in FillsOf}) \o Listed({Temp(w, f) : w \in Owners, f \in FillsOf})
Observers == <<1, 2, 5, 6>>
Enabled(s, e) ==
    CASE e.op = "tempfill" -> Len(s.temps) < Nested
      [] e.op = "endfill" -> s.temps # <<>>
      [] e.op = "colfill" -> e.col \in DOMAIN s.frames["b"].colfill => FALSE
      [] OTHER -> TRUE
Prepare(s, e) == e
VARIABLES S, start
INSTANCE Explore

Look1(s, names) == LookupAll(s, "a", names)[2]
FillKinds == {"i", "f", "s", "b"}
KindIn(c) == IF c = "j" THEN "i" ELSE c
\* A fill of the column comes first, then that of the frame, then that of the package; of plain frames, only the latter
Priority ==
    /\ \A c \in {"i", "f", "s", "b", "j"} :
        Look1(S, <<"z", c>>) = IF c \in DOMAIN S.frames["b"].colfill THEN S.frames["b"].colfill[c]
                               ELSE IF KindIn(c) \in DOMAIN S.frames["b"].inst THEN S.frames["b"].inst[KindIn(c)] ELSE S.cls[KindIn(c)]
    /\ \A c \in FillKinds : Look1(S, <<"y", c>>) = S.cls[c]
\* Rows that match are not concerned
MatchesUntouched == \A c \in {"i", "f", "s", "b", "j"} : LookupAll(S, "a", <<"z", c>>)[1] = S.frames["b"].data[c][1]
\* Opening and closing at once changes nothing, in any state, closed either way
OpenClose ==
    \A n \in DOMAIN Ops : Ops[n].op = "tempfill" =>
        \A err \in BOOLEAN : React(React(S, Ops[n]), End(err)) = S
\* Changes of the package-wide fills do not reach the frame's, nor the other way round
Apart ==
    \A n \in DOMAIN Ops : Ops[n].op \in {"setfill", "tempfill", "resetfill"} =>
        LET T == React(S, Ops[n]) IN
        IF Ops[n].who = "" THEN T.frames = S.frames ELSE T.cls = S.cls /\ T.frames["a"] = S.frames["a"] /\ T.frames["c"] = S.frames["c"]
\* After closing everything, what the outermost change was about is as it was before it
RECURSIVE CloseAll(_)
CloseAll(s) == IF s.temps = <<>> THEN s ELSE CloseAll(React(s, End(FALSE)))
Outermost ==
    S.temps # <<>> =>
        LET t == S.temps[1] T == CloseAll(S) IN
        \A k \in DOMAIN t.saved : LET f == Stored(T, t.who) IN
            (k \in DOMAIN f) = (t.saved[k] # <<>>) /\ (k \in DOMAIN f => f[k] = t.saved[k][1])
ResetsAll == React(S, Reset("")).cls = DefaultFills /\ React(S, Reset("b")).frames["b"].inst = NoFn
=============================================================================

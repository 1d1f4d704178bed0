------------------------------ MODULE MCDerive ------------------------------
(* Frames derived from linked frames, and from derived ones, in all orders    *)
(* with linking, using and indexing the links again (C16, C18). Every row     *)
(* carries the number of the row it came from, so that the invariants can     *)
(* tell what belongs to it.                                                   *)
EXTENDS MCBase, Seqs
CONSTANTS Steps      \* How many frames are derived

One3 == <<<<N(1)>>, <<N(2)>>, <<N(3)>>>>
FrameA == FrameOp("a", <<"id", "k", "m">>, [id |-> "i", k |-> "f", m |-> "i"],
                  [id |-> <<N(1), N(2), N(3)>>, k |-> <<N(2), NaN, N(1)>>, m |-> <<N(7), N(8), N(9)>>], One3, <<"i0">>)
FrameB == FrameOp("b", <<"v", "c">>, [v |-> "i", c |-> "i"], [v |-> <<N(21), N(22), N(23)>>, c |-> <<N(5), N(5), N(4)>>], One3, <<"i0">>)
FrameC == FrameOp("c", <<"m", "w">>, [m |-> "i", w |-> "f"],
                  [m |-> <<N(7), N(9), N(9), N(6)>>, w |-> <<N(1), N(2), <<"n", 1, 2>>, N(4)>>], One3 \o <<<<N(4)>>>>, <<"i0">>)
FrameD == FrameOp("d", <<"z">>, [z |-> "s"], [z |-> <<A, B>>], <<<<N(5)>>, <<N(6)>>>>, <<"i0">>)
Zone == LinkOp("a", "b", "zone", [NoArgs EXCEPT !.on_self = <<Name("k")>>], TRUE)
Many == LinkOp("a", "c", "many", [NoArgs EXCEPT !.on = <<Name("m")>>], FALSE)
Far == LinkOp("b", "d", "far", [NoArgs EXCEPT !.on_self = <<Name("c")>>], FALSE)
Starts == << <<FrameA, FrameB, FrameC, FrameD, Zone, Many, Far>>,
             <<FrameA, FrameB, FrameC, FrameD, [Zone EXCEPT !.precompute = FALSE], [Many EXCEPT !.precompute = TRUE], Far>> >>

\* Row operations of pandas, and the rows that they pick
Dos == << <<"iloc_slice", 1, 3, 1>>, <<"iloc_list", <<2, 0>>>>, <<"reverse">>, <<"mask", <<1, 0, 1>>>>, <<"head", 1>>, <<"tail", 2>>,
          <<"loc_from", 1>>, <<"drop", <<0>>>>, <<"copy", TRUE>>, <<"columns", <<"id", "m">>>>, <<"sort_values", "id", FALSE>>,
          <<"reindex", <<1, -1>>>>, <<"iloc_list", <<0, 0, 1>>>>, <<"iloc_slice", 0, 0, 1>>, <<"reset_index", TRUE>> >>
Evens(n) == SelectSeq([k \in 1..n |-> k], LAMBDA k : (k - 1) % 3 # 1)
Sub1(a, b) == IF b < a THEN <<>> ELSE [k \in 1..(b - a + 1) |-> a + k - 1]
Least(a, b) == IF a < b THEN a ELSE b
RowsOf(F, do) ==
    LET n == NRows(F) IN
    CASE do[1] = "iloc_slice" -> Sub1(do[2] + 1, Least(do[3], n))
      [] do[1] = "iloc_list" -> [k \in DOMAIN do[2] |-> (do[2][k] % n) + 1]
      [] do[1] = "reverse" -> [k \in 1..n |-> n + 1 - k]
      [] do[1] = "mask" -> SelectSeq([k \in 1..n |-> k], LAMBDA k : do[2][((k - 1) % 3) + 1] = 1)
      [] do[1] = "head" -> Sub1(1, Least(do[2], n))
      [] do[1] = "tail" -> Sub1(n - Least(do[2], n) + 1, n)
      [] do[1] = "loc_from" -> Sub1((do[2] % n) + 1, n)
      [] do[1] = "drop" -> SelectSeq([k \in 1..n |-> k], LAMBDA k : F.idx[k] # F.idx[1])
      [] do[1] = "sort_values" ->
            LET r == [k \in 1..n |-> k] IN SortSeq(r, LAMBDA x, y : NumLess(F.data["id"][y], F.data["id"][x]) \/ (F.data["id"][y] = F.data["id"][x] /\ x < y))
      [] do[1] = "reindex" -> <<(1 % n) + 1, 0>>
      [] OTHER -> [k \in 1..n |-> k]
Fresh0 == <<N(9001)>>
From(F, rows, do) == \* The frame that comes out
    LET cols == IF do[1] = "columns" THEN SelectSeq(F.cols, LAMBDA c : c \in {"id", "m"}) ELSE F.cols IN
    [F EXCEPT !.cols = cols,
              !.kind = [c \in Range(cols) |-> IF 0 \in Range(rows) /\ F.kind[c] = "i" THEN "f" ELSE F.kind[c]],
              !.data = [c \in Range(cols) |-> [k \in DOMAIN rows |-> IF rows[k] = 0 THEN NaN ELSE F.data[c][rows[k]]]],
              !.idx = IF do[1] = "reset_index" THEN [k \in DOMAIN rows |-> <<N(k - 1)>>]
                      ELSE [k \in DOMAIN rows |-> IF rows[k] = 0 THEN Fresh0 ELSE F.idx[rows[k]]]]
Derive(f, id, do) == [op |-> "derive", dom |-> "frame", f |-> f, id |-> id, do |-> do, must |-> TRUE, inplace |-> FALSE]
Use(f) == << LookupOp(f, <<"zone", "v">>), LookupOp(f, <<"zone", "far", "z">>), AggOp(f, <<"many">>, "sum", <<"sym", "w">>, Zero),
             AggOp(f, <<"many">>, "count", <<"sym", "m">>, Zero), LookupOp(f, <<"own", "v">>) >>
Compute(f) == [op |-> "compute", dom |-> "frame", f |-> f, refresh |-> TRUE]
Summary(f) == [op |-> "summary", dom |-> "frame", f |-> f]
Own(f) == LinkOp(f, "b", "own", [NoArgs EXCEPT !.levels = <<Name("i0")>>], FALSE)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Ops == Use("e1") \o Use("e2") \o Use("a")
       \o <<Compute("e1"), Compute("e2"), Compute("a"), Summary("e1"), Summary("e2"), Summary("a"), Own("a"), Own("e1"), Own("e2")>>
       \o [n \in DOMAIN Dos |-> Derive("a", "e1", Dos[n])]
       \o (IF Steps < 2 THEN <<>> ELSE [n \in DOMAIN Dos |-> Derive("e1", "e2", Dos[n])])
Observers == <<1, 2, 3, 4, 6, 7, 8, 9>>
Dups(F) == ~Distinct(F.idx)
Enabled(s, e) ==
    /\ e.f \in DOMAIN s.frames
    \* With two steps only the last of the frames is linked and indexed
    /\ Steps = 2 /\ e.op # "derive" => e.op # "summary" /\ e.f # "a" /\ ("e2" \in DOMAIN s.frames => e.f = "e2")
    /\ CASE e.op = "derive" -> /\ e.id \notin DOMAIN s.frames
                               /\ NRows(s.frames[e.f]) > 0 \/ e.do[1] \in {"reverse", "head", "tail", "copy", "columns", "mask"}
                               /\ e.do[1] \in {"drop", "reindex", "loc_from"} => ~Dups(s.frames[e.f])
                               /\ e.do[1] = "reindex" => Fresh0 \notin Range(s.frames[e.f].idx)
                               \* With a new row the rows with the same label are not to be told apart
                               /\ e.do[1] = "sort_values" => ~\E k \in DOMAIN s.frames[e.f].idx : IsNaN(s.frames[e.f].data["id"][k])
         [] e.op = "link" -> "own" \notin DOMAIN s.frames[e.f].links
                             /\ \A x \in {"e1", "e2"} : x \in DOMAIN s.frames => x = e.f \/ ~("own" \in DOMAIN s.frames[x].links)
         [] e.op = "lookup" -> e.names[1] = "own" => "own" \in DOMAIN s.frames[e.f].links
         [] OTHER -> TRUE
Prepare(s, e) ==
    IF e.op # "derive" THEN e
    ELSE LET F == s.frames[e.f] rows == RowsOf(F, e.do) G == From(F, rows, e.do) IN
         [op |-> "derive", dom |-> "frame", f |-> e.f, id |-> e.id, must |-> TRUE, inplace |-> FALSE, rows |-> rows, ldf |-> TRUE,
          cols |-> G.cols, kind |-> G.kind, data |-> G.data, idx |-> G.idx, inames |-> IF e.do[1] = "reset_index" THEN <<"None">> ELSE F.inames,
          links |-> Listed(DOMAIN F.links)]
VARIABLES S, start
INSTANCE Explore

Derivatives == {"e1", "e2"} \cap DOMAIN S.frames
Fm(f) == S.frames[f]
\* What is looked up is what belongs to the row that it came from
Belongs ==
    \A f \in Derivatives : \A k \in 1..NRows(Fm(f)) :
        LET id == Fm(f).data["id"][k] IN
        /\ LookupAll(S, f, <<"zone", "v">>)[k] = IF id = N(1) THEN N(22) ELSE IF id = N(3) THEN N(21) ELSE Zero
        /\ LookupAll(S, f, <<"zone", "far", "z">>)[k] = IF id \in {N(1), N(3)} THEN A ELSE TextOf(<<>>)
        /\ AggAll(S, Use(f)[3])[k] = IF id = N(1) THEN N(1) ELSE IF id = N(3) THEN <<"n", 5, 2>> ELSE NaN
\* Links stay, with as many keys as there are rows
Kept ==
    \A f \in Derivatives : {"zone", "many"} \subseteq DOMAIN Fm(f).links
                           /\ \A l \in DOMAIN Fm(f).links : Len(Fm(f).links[l].skeys) = NRows(Fm(f))
\* Sources are left alone
SourceIntact == Fm("a").data["id"] = <<N(1), N(2), N(3)>> /\ {"zone", "many"} \subseteq DOMAIN Fm("a").links
\* Indexing again makes no difference to what is found
SameFound ==
    \A f \in Derivatives \cup {"a"} :
        LET T == DoFrame(S, Compute(f)).st IN LookupAll(T, f, <<"zone", "v">>) = LookupAll(S, f, <<"zone", "v">>)
=============================================================================

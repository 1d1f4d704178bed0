------------------------------ MODULE Explore -------------------------------
(* Explores everything that can happen from some starts with a table of       *)
(* operations, through the same reactions (Do, DoFrame) by which traces of    *)
(* the implementation are judged. Invariants are given by the modules that    *)
(* instantiate this one. All transitions are printed, so that each of them    *)
(* can be made by the implementation as well (harness/explore.py).            *)
EXTENDS Model, Frames, Logit, Json, IOUtils, TLCExt

CONSTANTS Starts,          \* The beginnings: sequences of operations
          Ops,             \* The operations
          Observers,       \* The numbers of those which show most of a state
          Enabled(_, _),   \* Whether operation e makes sense in state S
          Prepare(_, _)    \* Operation e as an event of state S (what the implementation would report is added)
VARIABLES S, start

Fresh == [models |-> NoFn, frames |-> NoFn, cls |-> DefaultFills, temps |-> <<>>, cells |-> NoFn, rng |-> NoFn]

React(s, e) ==
    IF e.dom = "logit" THEN [JudgeLogit(s, e).st EXCEPT !.cells = s.cells]
    ELSE IF e.dom = "frame" THEN (LET d == DoFrame(s, e) IN IF "ok" \in d.res THEN d.st ELSE s)
    ELSE LET d == Do(s, e) IN
         IF "ok" \in d.res \/ e.op = "add_choices" \/ (e.op \in {"run", "discrete"} /\ "UtilityBoundsError" \in d.res)
         THEN d.st ELSE s

RECURSIVE Through(_, _)
Through(s, ops) == IF ops = <<>> THEN s ELSE Through(React(s, Prepare(s, Head(ops))), Tail(ops))

Export == "OUT" \in DOMAIN IOEnv

Init == /\ start \in DOMAIN Starts
        /\ S = TLCEval(Through(Fresh, Starts[start]))
        /\ IF ~Export THEN TRUE
           ELSE /\ PrintT(<<"I", start, TLCFP(S)>>)
                /\ start > 1 \/ JsonSerialize(IOEnv.OUT, [starts |-> Starts, ops |-> Ops, observers |-> Observers])
Next == \E k \in DOMAIN Ops :
            /\ Enabled(S, Ops[k]) = TRUE
            /\ S' = TLCEval(React(S, Prepare(S, Ops[k])))
            /\ UNCHANGED start
            /\ IF Export THEN PrintT(<<"T", TLCFP(S), k, TLCFP(S')>>) ELSE TRUE
Spec == Init /\ [][Next]_<<S, start>>
View == S
=============================================================================

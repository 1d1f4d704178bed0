------------------------------- MODULE Trace --------------------------------
(* Checks a trace recorded from the implementation, one event per step. The   *)
(* verdict is total: every event is judged, the clauses it breaks are printed *)
(* with its line, and checking goes on with the next event.                   *)
EXTENDS Model, Frames, Logit, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, S, nbad
vars == <<l, S, nbad>>

Fresh == [models |-> NoFn, frames |-> NoFn, cls |-> DefaultFills, temps |-> <<>>, cells |-> NoFn, rng |-> NoFn]
Init == l = 1 /\ S = Fresh /\ nbad = 0

Judge(s, e) ==
    IF e.op = "reset" THEN [st |-> Fresh, bad |-> {}]
    ELSE IF e.dom = "-" THEN [st |-> s, bad |-> {}]     \* nothing was done
    ELSE IF e.dom = "logit" THEN JudgeLogit(s, e)
    ELSE IF e.dom = "frame" THEN JudgeFrame(s, e)
    ELSE JudgeModel(s, e)

Next ==
    /\ l <= Len(Log)
    /\ LET j == Judge(S, Log[l]) IN
        /\ S' = j.st
        /\ nbad' = nbad + Cardinality(j.bad)
        /\ IF j.bad = {} THEN TRUE ELSE PrintT(<<"BAD", l, ToJson(j.bad)>>)
    /\ l' = l + 1
Spec == Init /\ [][Next]_vars
\* Every line was judged
Complete == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================

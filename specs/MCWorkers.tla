----------------------------- MODULE MCWorkers ------------------------------
(* Threads that draw for the decision units of their parts of the table (C04).*)
(* Numbers come from generators: a generator is <<seed, how many were taken>> *)
(* and its next number is a function of that. Every thread has one of its own *)
(* which others (and earlier activity) may have left in any state. What each  *)
(* unit gets has to be the same for every number of threads and every         *)
(* interleaving.                                                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Units, Threads, Draws, Seed, Single
VARIABLES split, gen, seeds, next, taken, out, stage
vars == <<split, gen, seeds, next, taken, out, stage>>
U == 1..Units
T == 1..Threads
Number(g) == Append(g[1], g[2] + 1)    \* The number that generator g yields next
Junk == {<<<<-1>>, 0>>, <<<<-1>>, 3>>}
\* The parts are consecutive; how many there are is the number of threads used
Splits == {s \in [U -> T] : \A a, b \in U : a <= b => s[a] <= s[b]}
Init == /\ split \in Splits /\ gen \in [T -> Junk] /\ stage = "start" /\ seeds = <<>>
        /\ next = [th \in T |-> 1] /\ taken = [u \in U |-> <<>>] /\ out = [u \in U |-> <<>>]
\* One seed, or one number, per unit is made beforehand in one thread
Master == /\ stage = "start" /\ stage' = "work"
          /\ seeds' = [u \in U |-> Number(<<<<Seed>>, u - 1>>)]
          /\ gen' = [gen EXCEPT ![1] = <<<<Seed>>, Units>>]
          /\ UNCHANGED <<split, next, taken, out>>
Mine(th) == {u \in U : split[u] = th}
Current(th) == LET left == {u \in Mine(th) : Len(out[u]) = 0} IN IF left = {} THEN 0 ELSE CHOOSE u \in left : \A v \in left : u <= v
\* A unit with one draw takes its number
TakeOne(th) == LET u == Current(th) IN
    /\ Single /\ stage = "work" /\ u # 0
    /\ out' = [out EXCEPT ![u] = <<seeds[u]>>]
    /\ UNCHANGED <<split, gen, seeds, next, taken, stage>>
\* With several draws the thread's generator is seeded for the unit, then yields them one after another
SeedUnit(th) == LET u == Current(th) IN
    /\ ~Single /\ stage = "work" /\ u # 0 /\ next[th] = 1
    /\ gen' = [gen EXCEPT ![th] = <<seeds[u], 0>>] /\ next' = [next EXCEPT ![th] = 2]
    /\ UNCHANGED <<split, seeds, taken, out, stage>>
Draw(th) == LET u == Current(th) IN
    /\ ~Single /\ stage = "work" /\ u # 0 /\ next[th] = 2
    /\ gen' = [gen EXCEPT ![th] = <<@[1], @[2] + 1>>]
    /\ LET got == Append(taken[u], Number(gen[th])) IN
       IF Len(got) = Draws THEN /\ out' = [out EXCEPT ![u] = got] /\ next' = [next EXCEPT ![th] = 1] /\ taken' = taken
       ELSE /\ taken' = [taken EXCEPT ![u] = got] /\ UNCHANGED <<out, next>>
    /\ UNCHANGED <<split, seeds, stage>>
Next == Master \/ \E th \in T : TakeOne(th) \/ SeedUnit(th) \/ Draw(th)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Expected(u) == LET s == Number(<<<<Seed>>, u - 1>>) IN IF Single THEN <<s>> ELSE [k \in 1..Draws |-> Append(s, k)]
Reproducible == \A u \in U : out[u] = <<>> \/ out[u] = Expected(u)
SeparateUnits == \A u, v \in U : u # v /\ out[u] # <<>> /\ out[v] # <<>> => \A i \in DOMAIN out[u] : \A k \in DOMAIN out[v] : out[u][i] # out[v][k]
AllDrawn == <>(\A u \in U : out[u] # <<>>)
=============================================================================

------------------------------ MODULE MCBarrier ------------------------------
(* The barrier at the level of its accesses: a counter and a generation.      *)
(* ReadFirst: the generation is read before the counter is decremented;       *)
(* ResetFirst: the counter is set up for the next use before the release.     *)
EXTENDS Integers
CONSTANTS Threads, Rounds, ReadFirst, ResetFirst
VARIABLES count, gen, pc, my, left, arrived, passed
vars == <<count, gen, pc, my, left, arrived, passed>>
N == CHOOSE n \in 1..10 : \E f \in [1..n -> Threads] : \A t \in Threads : \E i \in 1..n : f[i] = t
Init == /\ count = N /\ gen = 0 /\ pc = [t \in Threads |-> "idle"] /\ my = [t \in Threads |-> 0] /\ left = [t \in Threads |-> 0]
        /\ arrived = [t \in Threads |-> 0] /\ passed = [t \in Threads |-> 0]
go(t, l) == pc' = [pc EXCEPT ![t] = l]
Call(t) == pc[t] = "idle" /\ arrived[t] < Rounds /\ arrived' = [arrived EXCEPT ![t] = @ + 1] /\ go(t, IF ReadFirst THEN "read" ELSE "dec")
           /\ UNCHANGED <<count, gen, my, left, passed>>
Read(t) == pc[t] = "read" /\ my' = [my EXCEPT ![t] = gen] /\ go(t, IF ReadFirst THEN "dec" ELSE "check") /\ UNCHANGED <<count, gen, left, arrived, passed>>
Dec(t) == pc[t] = "dec" /\ count' = count - 1 /\ left' = [left EXCEPT ![t] = count - 1] /\ go(t, IF ReadFirst THEN "check" ELSE "read")
          /\ UNCHANGED <<gen, my, arrived, passed>>
Check(t) == pc[t] = "check" /\ go(t, IF left[t] = 0 THEN (IF ResetFirst THEN "reset" ELSE "open") ELSE "spin")
            /\ UNCHANGED <<count, gen, my, left, arrived, passed>>
Reset(t) == pc[t] = "reset" /\ count' = N /\ go(t, IF ResetFirst THEN "open" ELSE "out") /\ UNCHANGED <<gen, my, left, arrived, passed>>
Open(t) == pc[t] = "open" /\ gen' = gen + 1 /\ go(t, IF ResetFirst THEN "out" ELSE "reset") /\ UNCHANGED <<count, my, left, arrived, passed>>
Spin(t) == pc[t] = "spin" /\ gen # my[t] /\ go(t, "out") /\ UNCHANGED <<count, gen, my, left, arrived, passed>>
Out(t) == pc[t] = "out" /\ passed' = [passed EXCEPT ![t] = @ + 1] /\ go(t, "idle") /\ UNCHANGED <<count, gen, my, left, arrived>>
Step(t) == Call(t) \/ Read(t) \/ Dec(t) \/ Check(t) \/ Reset(t) \/ Open(t) \/ Spin(t) \/ Out(t)
Done == \A t \in Threads : passed[t] = Rounds
Next == (\E t \in Threads : Step(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
Together == \A t, u \in Threads : passed[t] <= arrived[u]
AllPass == <>Done
==============================================================================

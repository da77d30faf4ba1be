---------------------------- MODULE MCLifecycle ----------------------------
(* The loop of the initialization (and completion) phases as the threads of  *)
(* one process run it: barrier, reset of the message count, barrier, the     *)
(* calls of the phase, barrier, exchange of the data between the threads,    *)
(* barrier, test of the count.  Barriers: the barriers that are there.       *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, MaxPhase, Barriers
VARIABLES pc, ph, count, out, inbox, got, sent, arr
vars == <<pc, ph, count, out, inbox, got, sent, arr>>
One == CHOOSE t \in Threads : \A u \in Threads : t <= u
Init == /\ pc = [t \in Threads |-> "b1"] /\ ph = [t \in Threads |-> 0] /\ count = 0
        /\ out = [t \in Threads |-> [u \in Threads |-> {}]] /\ inbox = [t \in Threads |-> {}] /\ got = [t \in Threads |-> {}]
        /\ sent = {} /\ arr = [t \in Threads |-> 0]
(* arr counts the barriers a thread has arrived at, a thread leaves when all have arrived as often *)
Arrive(t, b, w) == /\ pc[t] = b /\ pc' = [pc EXCEPT ![t] = w] /\ arr' = [arr EXCEPT ![t] = @ + 1]
                   /\ UNCHANGED <<ph, count, out, inbox, got, sent>>
Leave(t, w, n) == /\ pc[t] = w /\ \A u \in Threads : arr[u] >= arr[t] /\ pc' = [pc EXCEPT ![t] = n]
                  /\ UNCHANGED <<ph, count, out, inbox, got, sent, arr>>
Skip(t, b, n) == pc[t] = b /\ pc' = [pc EXCEPT ![t] = n] /\ UNCHANGED <<ph, count, out, inbox, got, sent, arr>>
Bar(t, k, b, w, n) == IF k \in Barriers THEN Arrive(t, b, w) \/ Leave(t, w, n) ELSE Skip(t, b, n)
Reset(t) == /\ pc[t] = "reset" /\ pc' = [pc EXCEPT ![t] = "b2"] /\ count' = IF t = One THEN 0 ELSE count
            /\ UNCHANGED <<ph, out, inbox, got, sent, arr>>
(* the calls of one phase: receive what is there, send to any set of threads *)
Call(t) == /\ pc[t] = "call" /\ pc' = [pc EXCEPT ![t] = "b3"]
           /\ got' = [got EXCEPT ![t] = @ \cup {x \in inbox[t] : x[2] < ph[t]}]
           /\ \E to \in SUBSET Threads :
                LET S == IF ph[t] >= MaxPhase THEN {} ELSE to
                    new == {<<t, ph[t], u>> : u \in S}
                IN /\ sent' = sent \cup new /\ count' = count + Cardinality(S)
                   /\ inbox' = [inbox EXCEPT ![t] = @ \cup {x \in new : x[3] = t}]
                   /\ out' = [out EXCEPT ![t] = [u \in Threads |-> IF u = t THEN @[u] ELSE @[u] \cup {x \in new : x[3] = u}]]
           /\ UNCHANGED <<ph, arr>>
(* a thread takes what the others have put out for it *)
Exchange(t) == /\ pc[t] = "exch" /\ pc' = [pc EXCEPT ![t] = "b4"]
               /\ inbox' = [inbox EXCEPT ![t] = @ \cup UNION {out[u][t] : u \in Threads}]
               /\ out' = [u \in Threads |-> [out[u] EXCEPT ![t] = {}]]
               /\ UNCHANGED <<ph, count, got, sent, arr>>
Test(t) == /\ pc[t] = "test" /\ pc' = [pc EXCEPT ![t] = IF count = 0 THEN "end" ELSE "b1"] /\ ph' = [ph EXCEPT ![t] = @ + 1]
           /\ UNCHANGED <<count, out, inbox, got, sent, arr>>
Step(t) == \/ Bar(t, 1, "b1", "w1", "reset") \/ Reset(t) \/ Bar(t, 2, "b2", "w2", "call") \/ Call(t)
           \/ Bar(t, 3, "b3", "w3", "exch") \/ Exchange(t) \/ Bar(t, 4, "b4", "w4", "test") \/ Test(t)
Done == \A t \in Threads : pc[t] = "end"
Next == (\E t \in Threads : Step(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
(* all threads are in the same phase while calls are made *)
Lockstep == \A t, u \in Threads : pc[t] = "call" => IF pc[u] = "end" THEN FALSE ELSE ph[u] = ph[t]
(* after its call in phase p a thread has received exactly what was sent to it before p *)
Received == \A t \in Threads : pc[t] = "b3" => got[t] = {x \in sent : x[3] = t /\ x[2] < ph[t]}
(* the phases end with the first in which nothing was sent, for all threads the same *)
Ends == \A t \in Threads : pc[t] = "end" =>
          /\ \A x \in sent : x[2] < ph[t] - 1
          /\ ph[t] = 1 \/ \E x \in sent : x[2] = ph[t] - 2
          /\ \A u \in Threads : pc[u] = "end" => ph[u] = ph[t]
=============================================================================

----------------------------- MODULE MCParSync -----------------------------
(* The conservative parallel run: partitions (rank, thread) advance on      *)
(* their own between synchronizations.  Threads of a rank exchange events   *)
(* at thread syncs, all ranks at rank syncs, both scheduled at the earliest *)
(* next activity plus the least latency of the links that cross.  What must *)
(* hold: no partition ever receives an event for a time it already passed,  *)
(* every event is handled once and at its time, in each partition in the    *)
(* order of time, so the partitioned run has the history of the serial one. *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS MaxSend, MaxT,
          LeadT, LeadR    \* what the syncs add to the earliest next activity

Parts == 1..4
Rank(p) == (p + 1) \div 2
Ranks == 1..2
(* latency of the link p -> q *)
Lat(p, q) == IF p = q THEN 1 ELSE IF Rank(p) = Rank(q) THEN 2 ELSE IF p + q = 5 THEN 4 ELSE 3
Inf == 1000
MinOf(s) == IF s = {} THEN Inf ELSE CHOOSE x \in s : \A y \in s : x <= y

VARIABLES q,        \* [p -> set of <<t, id>>] events in the partition's queue
          box,      \* events that crossed and wait for a sync: <<p, q, t, id>>
          lt,       \* local time of each partition
          nthr,     \* [rank -> time of next thread sync]
          nrank,    \* time of next rank sync
          sent, done, id, late
vars == <<q, box, lt, nthr, nrank, sent, done, id, late>>

Init == /\ q \in [Parts -> {{}, {<<0, 0>>}, {<<3, 0>>}}]
        /\ \E p \in Parts : q[p] # {}
        /\ box = {} /\ lt = [p \in Parts |-> 0]
        /\ nthr = [r \in Ranks |-> LeadT] /\ nrank = LeadR
        /\ sent = {} /\ done = {} /\ id = 1 /\ late = FALSE

Bound(p) == IF nthr[Rank(p)] < nrank THEN nthr[Rank(p)] ELSE nrank
First(p) == MinOf({e[1] : e \in q[p]})

Step(p) ==
  /\ First(p) < Bound(p) /\ First(p) <= MaxT
  /\ \E e \in q[p] :
       /\ e[1] = First(p)
       /\ lt' = [lt EXCEPT ![p] = e[1]]
       /\ done' = done \cup {<<p, e[1], e[2]>>}
       /\ late' = (late \/ e[1] < lt[p])
       /\ \/ /\ q' = [q EXCEPT ![p] = @ \ {e}]
             /\ UNCHANGED <<box, sent, id>>
          \/ \E d \in Parts, x \in 0..1 :
               LET t == e[1] + Lat(p, d) + x IN
               /\ id <= MaxSend
               /\ id' = id + 1
               /\ sent' = sent \cup {<<d, t, id>>}
               /\ IF d = p THEN q' = [q EXCEPT ![p] = (@ \ {e}) \cup {<<t, id>>}] /\ UNCHANGED box
                  ELSE q' = [q EXCEPT ![p] = @ \ {e}] /\ box' = box \cup {<<p, d, t, id>>}
  /\ UNCHANGED <<nthr, nrank>>

Moved(bs) == [p \in Parts |-> q[p] \cup {<<b[3], b[4]>> : b \in {x \in bs : x[2] = p}}]
IsLate(bs, t) == \E b \in bs : b[3] < t

ThreadSync(r) ==
  LET bs == {b \in box : Rank(b[1]) = r /\ Rank(b[2]) = r}
      t == nthr[r]
      n == Moved(bs)
  IN /\ t < nrank /\ t <= MaxT
     /\ \A p \in Parts : Rank(p) = r => First(p) >= t
     /\ q' = n /\ box' = box \ bs
     /\ late' = (late \/ IsLate(bs, t))
     /\ lt' = [p \in Parts |-> IF Rank(p) = r THEN t ELSE lt[p]]
     /\ nthr' = [nthr EXCEPT ![r] =
          LET m == MinOf({e[1] : e \in UNION {n[p] : p \in {x \in Parts : Rank(x) = r}}}) IN m + LeadT]
     /\ UNCHANGED <<nrank, sent, done, id>>

RankSync ==
  LET t == nrank n == Moved(box) IN
  /\ t <= MaxT
  /\ \A p \in Parts : First(p) >= t
  /\ \A r \in Ranks : nthr[r] >= t
  /\ q' = n /\ box' = {}
  /\ late' = (late \/ IsLate(box, t))
  /\ lt' = [p \in Parts |-> t]
  /\ nrank' = MinOf({e[1] : e \in UNION {n[p] : p \in Parts}}) + LeadR
  /\ nthr' = [r \in Ranks |-> MinOf({e[1] : e \in UNION {n[p] : p \in {x \in Parts : Rank(x) = r}}}) + LeadT]
  /\ UNCHANGED <<sent, done, id>>

Next == \/ \E p \in Parts : Step(p)
        \/ \E r \in Ranks : ThreadSync(r)
        \/ RankSync
Spec == Init /\ [][Next]_vars

NeverLate == ~late
AtItsTime == \A d \in done : d[3] = 0 \/ d \in sent
NotLost == \A s \in sent : s \in done \/ <<s[2], s[3]>> \in q[s[1]] \/ \E b \in box : <<b[2], b[3], b[4]>> = s
Once == \A s \in sent : ~(s \in done /\ <<s[2], s[3]>> \in q[s[1]])
(* as long as something is due within the horizon, something can happen *)
Live == (\E p \in Parts : First(p) <= MaxT) \/ (\E b \in box : b[3] <= MaxT)
        => ENABLED Next \/ nrank > MaxT \/ (\E r \in Ranks : nthr[r] > MaxT)
=============================================================================

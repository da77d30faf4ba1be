----------------------------- MODULE MCEventQueue -----------------------------
(* The binned queue as implemented (a current bin and a map of later bins,    *)
(* with a copy of the contents) implements the event queue as long as nothing *)
(* is inserted before the current time.  Threads other than the owner insert  *)
(* in two steps: choose the bin, then put the item in; the choice and the     *)
(* move of the owner to the next bin exclude each other.                      *)
EXTENDS EventQueue, TLC
CONSTANTS T, P, MaxN, Locked
VARIABLES q, cur, bins, wait, out, ref
vars == <<q, cur, bins, wait, out, ref>>
(* q: abstract queue; cur: [t, s] current bin; bins: function time -> set; wait: insertion under way *)
Init == /\ q = NoItems /\ cur = [t |-> 0, s |-> {}] /\ bins = [x \in {} |-> {}]
        /\ wait = {} /\ out = <<>> /\ ref = <<>>
(* an item for time t >= now is placed; the other thread is never further behind than its window allows *)
Start(t, p) == /\ q.n < MaxN /\ wait = {} /\ t >= cur.t
               /\ q' = Insert(q, q.n, t, p, 0)
               /\ LET it == <<q.n, t, p, 0, q.n>> IN
                  IF Locked
                  THEN /\ wait' = {}
                       /\ IF t = cur.t THEN cur' = [cur EXCEPT !.s = @ \cup {it}] /\ UNCHANGED bins
                          ELSE bins' = (t :> ((IF t \in DOMAIN bins THEN bins[t] ELSE {}) \cup {it})) @@ bins /\ UNCHANGED cur
                  ELSE /\ wait' = {<<it, t = cur.t>>} /\ UNCHANGED <<cur, bins>>
               /\ UNCHANGED <<out, ref>>
Finish == /\ wait # {}
          /\ LET w == CHOOSE x \in wait : TRUE
                 it == w[1] IN
             IF w[2] THEN cur' = [cur EXCEPT !.s = @ \cup {it}] /\ UNCHANGED bins
             ELSE bins' = (it[2] :> ((IF it[2] \in DOMAIN bins THEN bins[it[2]] ELSE {}) \cup {it})) @@ bins /\ UNCHANGED cur
          /\ wait' = {} /\ UNCHANGED <<q, out, ref>>
Least(S) == CHOOSE a \in S : \A b \in S : a = b \/ Before(a, b)
Pop == /\ q.in # {}
       /\ \A x \in wait : x[1] # First(q)      \* what is being inserted is not due yet
       /\ IF cur.s # {}
          THEN out' = Append(out, Least(cur.s)[1]) /\ cur' = [cur EXCEPT !.s = @ \ {Least(cur.s)}] /\ UNCHANGED bins
          ELSE IF DOMAIN bins = {} THEN UNCHANGED <<out, cur, bins>>
          ELSE LET t == CHOOSE x \in DOMAIN bins : \A y \in DOMAIN bins : x <= y
               IN /\ out' = Append(out, Least(bins[t])[1])
                  /\ cur' = [t |-> t, s |-> bins[t] \ {Least(bins[t])}]
                  /\ bins' = [x \in DOMAIN bins \ {t} |-> bins[x]]
       /\ ref' = Append(ref, First(q)[1])
       /\ q' = Remove(q) /\ UNCHANGED wait
Next == (\E t \in T, p \in P : Start(t, p)) \/ Finish \/ Pop
Spec == Init /\ [][Next]_vars
SameOrder == out = ref
Held == wait = {} => cur.s \cup UNION {bins[t] : t \in DOMAIN bins} = q.in
NoOld == \A t \in DOMAIN bins : t > cur.t
==============================================================================

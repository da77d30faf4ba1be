--------------------------- MODULE MCStatsWindow ---------------------------
(* One statistic in a run: at each time first the calls of that time, then    *)
(* the handlers of the statistics engine, in any order among themselves.      *)
(* added is everything ever given to the statistic, with its time; the        *)
(* invariants say what each output must cover.                                *)
EXTENDS Stats
CONSTANTS End, MaxAdds, Limits, Periods
VARIABLES c, s, t, todo, added, cov, over
vars == <<c, s, t, todo, added, cov, over>>
Cfgs == { [type |-> "acc", period |-> p, limit |-> k, start |-> a, stop |-> b, reset |-> r] :
            p \in Periods, k \in Limits, a \in 0..(End + 1), b \in 0..(End + 1), r \in {0, 1} }
Init == /\ c \in { x \in Cfgs : (x.limit = 0 \/ x.period = 0) /\ (x.start = 0 \/ x.start # x.stop) }
        /\ s = Fresh(c) /\ t = 0 /\ todo = {} /\ added = <<>> /\ cov = <<>> /\ over = FALSE
(* cov[i] is the sequence number of the first addition output i may cover and of the last *)
Track(x) == cov' = IF Len(x.out) = Len(s.out) THEN cov ELSE
              Append(cov, << IF c.reset = 1 /\ cov # <<>> THEN cov[Len(cov)][2] + 1 ELSE 1, Len(added') >>)
Give == /\ ~over /\ todo = {} /\ Len(added) < MaxAdds
        /\ \E n \in {1, 2} : LET v == 2 ^ Len(added) IN
             /\ added' = Append(added, <<t, v, n>>)
             /\ s' = Add(c, s, t, v, n) /\ Track(s')
        /\ UNCHANGED <<c, t, todo, over>>
Handlers == { h \in {"out", "start", "stop"} :
                (h = "out" /\ c.period > 0 /\ t % c.period = 0) \/ (h = "start" /\ t = c.start) \/ (h = "stop" /\ t = c.stop) }
(* all calls of time t are done *)
Due == ~over /\ t > 0 /\ todo = {} /\ Handlers # {} /\ todo' = Handlers /\ UNCHANGED <<c, s, t, added, cov, over>>
Step == /\ todo # {}
        /\ \E h \in todo :
             LET one == [c EXCEPT !.period = IF h = "out" THEN @ ELSE 0, !.start = IF h = "start" THEN @ ELSE -1,
                                  !.stop = IF h = "stop" THEN @ ELSE -1] IN
             /\ s' = Phase(one, s, t)
             /\ todo' = todo \ {h}
             /\ UNCHANGED added /\ Track(s')
             /\ IF todo' = {} THEN (IF t = End THEN over' = TRUE /\ UNCHANGED t ELSE t' = t + 1 /\ UNCHANGED over)
                ELSE UNCHANGED <<t, over>>
        /\ UNCHANGED c
Pass == /\ ~over /\ todo = {} /\ (t = 0 \/ Handlers = {})
        /\ IF t = End THEN over' = TRUE /\ UNCHANGED t ELSE t' = t + 1 /\ UNCHANGED over
        /\ UNCHANGED <<c, s, todo, added, cov>>
Next == Give \/ Due \/ Step \/ Pass
Spec == Init /\ [][Next]_vars

(* an addition counts from after the start time to the stop time, that time included *)
Counts(a) == (c.start = 0 \/ a[1] > c.start) /\ (c.stop = 0 \/ a[1] <= c.stop \/ (c.start > c.stop /\ a[1] > c.start))
Part(i) == LET p == SubSeq(added, cov[i][1], cov[i][2]) IN
           [k \in 1..Len(SelectSeq(p, Counts)) |-> << SelectSeq(p, Counts)[k][2], SelectSeq(p, Counts)[k][3] >>]
Covers == \A i \in 1..Len(s.out) : s.out[i][2] = Accumulator(Part(i))
Times == { s.out[i][1] : i \in 1..Len(s.out) }
Done == IF over THEN End ELSE IF todo # {} THEN t - 1 ELSE t - 1
Periodic == c.period > 0 =>
  /\ \A i \in 1..Len(s.out) : s.out[i][1] > 0 /\ s.out[i][1] % c.period = 0 /\ \A j \in 1..(i - 1) : s.out[j][1] < s.out[i][1]
  /\ \A m \in 1..Done : m % c.period = 0 => m \in Times
Counted == SelectSeq(added, Counts)
ByCount == c.limit > 0 => s.oc < c.limit
=============================================================================

------------------------------ MODULE MCStats ------------------------------
(* The statistics as the code keeps them, as running totals and a map from   *)
(* bin starts to counts, against what Stats.tla says they must report.       *)
(* The flags turn on the correct choice at places where it is easy to err.   *)
EXTENDS Stats
CONSTANTS N, MaxData, MinV, NCounts, Aligned, LowInit, SkipNone
VARIABLES data, sum, sq, cnt, mn, mx, bins, lo, hi, binned
vars == <<data, sum, sq, cnt, mn, mx, bins, lo, hi, binned>>
V == -4..4
Big == 1000
C == [minv |-> 0 - MinV, width |-> 2, nbins |-> 3, one |-> 1, oob |-> 1, dump |-> 1]

Clear == sum' = 0 /\ sq' = 0 /\ cnt' = 0 /\ mn' = Big /\ mx' = (IF LowInit THEN -Big ELSE 0)
         /\ bins' = [b \in {} |-> 0] /\ lo' = 0 /\ hi' = 0 /\ binned' = 0
Init == /\ data = <<>> /\ sum = 0 /\ sq = 0 /\ cnt = 0 /\ mn = Big /\ mx = (IF LowInit THEN -Big ELSE 0)
        /\ bins = [b \in {} |-> 0] /\ lo = 0 /\ hi = 0 /\ binned = 0
Floor(a, b) == a \div b       \* TLA+ division rounds down
Start(v) == IF Aligned THEN C.minv + C.width * Floor(v - C.minv, C.width) ELSE C.width * Floor(v, C.width)
AddN(v, n) ==
  /\ data' = Append(data, <<v, n>>)
  /\ cnt' = cnt + n
  /\ IF SkipNone /\ n = 0
     THEN UNCHANGED <<sum, sq, mn, mx, bins, lo, hi, binned>>
     ELSE /\ sum' = sum + n * v /\ sq' = sq + n * v * v
          /\ mn' = (IF v < mn THEN v ELSE mn) /\ mx' = (IF v > mx THEN v ELSE mx)
          /\ lo' = lo + (IF v < C.minv THEN n ELSE 0)
          /\ hi' = hi + (IF v > Top(C) THEN n ELSE 0)
          /\ IF InRange(C, v)
             THEN /\ binned' = binned + (IF NCounts THEN n ELSE 1)
                  /\ bins' = [b \in DOMAIN bins \cup {Start(v)} |->
                               (IF b \in DOMAIN bins THEN bins[b] ELSE 0) + (IF b = Start(v) THEN n ELSE 0)]
             ELSE UNCHANGED <<binned, bins>>
Next == \/ Len(data) < MaxData /\ \E v \in V, n \in N : AddN(v, n)
        \/ data # <<>> /\ data' = <<>> /\ Clear
Spec == Init /\ [][Next]_vars

AccOk == << sum, sq, cnt, IF cnt = 0 THEN 0 ELSE mn, IF cnt = 0 THEN 0 ELSE mx >> = Accumulator(data)
In(x, b) == IF b \in DOMAIN x THEN x[b] ELSE 0
HistOk == LET h == Histogram(C, data) IN
  /\ << Cardinality(DOMAIN bins), cnt, binned, lo, hi >> = SubSeq(h, 7, 11)
  /\ [b \in 1..C.nbins |-> In(bins, C.minv + (b - 1) * C.width)] = SubSeq(h, 12, Len(h))
=============================================================================

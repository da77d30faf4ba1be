----------------------------- MODULE MCSortedMap -----------------------------
(* The container as implemented: a vector kept in strict key order, searched *)
(* by bisection.  It must implement the ordered map for every sequence of    *)
(* calls.                                                                    *)
EXTENDS SortedMap
CONSTANTS K, V
VARIABLES d, m         \* the vector of <<key, value>>; the abstract map
vars == <<d, m>>

Insert(k, v) == \E i \in 0..Len(d) :
    /\ \A j \in 1..i : d[j][1] < k
    /\ \A j \in (i + 1)..Len(d) : d[j][1] > k
    /\ d' = SubSeq(d, 1, i) \o <<<<k, v>>>> \o SubSeq(d, i + 1, Len(d))

RECURSIVE Find(_, _, _)
Find(k, lo, hi) ==
  IF lo > hi THEN 0
  ELSE LET mid == lo + (hi - lo) \div 2 IN
       IF d[mid][1] = k THEN mid ELSE IF k < d[mid][1] THEN Find(k, lo, mid - 1) ELSE Find(k, mid + 1, hi)

Init == d = <<>> /\ m = Empty
Ins(k, v) == IF Find(k, 1, Len(d)) # 0 THEN UNCHANGED vars ELSE Insert(k, v) /\ m' = Put(m, k, v)
Assign(k, v) == /\ Find(k, 1, Len(d)) # 0
                /\ d' = [d EXCEPT ![Find(k, 1, Len(d))] = <<k, v>>] /\ m' = Set(m, k, v)
Filter(D) == d' = SelectSeq(d, LAMBDA x : x[1] \notin D) /\ m' = Del(m, D)
Next == \/ \E k \in K, v \in V : Ins(k, v) \/ Assign(k, v)
        \/ \E D \in SUBSET K : Filter(D)
Spec == Init /\ [][Next]_vars

InOrder == \A i \in 1..(Len(d) - 1) : d[i][1] < d[i + 1][1]
Implements == Items(m) = d
SearchExact == \A k \in K : LET i == Find(k, 1, Len(d)) IN
                 IF k \in DOMAIN m THEN i # 0 /\ d[i] = <<k, m[k]>> ELSE i = 0
=============================================================================

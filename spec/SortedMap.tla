------------------------------ MODULE SortedMap ------------------------------
(* An ordered map (SparseVectorMap).  The state m is a function from the     *)
(* keys present to their values; a set is a map from each key to itself.     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Empty == [k \in {} |-> 0]
Put(m, k, v) == IF k \in DOMAIN m THEN m ELSE m @@ (k :> v)      \* a present key keeps its value
Set(m, k, v) == [m EXCEPT ![k] = v]
Del(m, K) == [k \in DOMAIN m \ K |-> m[k]]

Ordered(K) == SortSeq(SetToSeq(K), LAMBDA a, b : a < b)
Items(m) == LET o == Ordered(DOMAIN m) IN [i \in 1..Len(o) |-> <<o[i], m[o[i]]>>]

RECURSIVE PutAll(_, _)
PutAll(m, s) == IF s = <<>> THEN m ELSE PutAll(Put(m, s[1][1], s[1][2]), Tail(s))
=============================================================================

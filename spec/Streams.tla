------------------------------- MODULE Streams -------------------------------
(* Random number streams.  What numbers a configuration (kind of generator,  *)
(* seed, distributions, order of calls) yields is not specified; that they   *)
(* are a function of the configuration and the position is.  The function is *)
(* learned: tab[c] are the numbers seen so far.  A unit is a generator with  *)
(* its distributions: its configuration and how many numbers it has given.   *)
EXTENDS Integers, Sequences, TLC

NoUnits == [u \in {} |-> 0]
New(us, u, c) == (u :> [c |-> c, n |-> 0]) @@ us
Copy(us, u, v) == (v :> us[u]) @@ us
Drop(us, u) == [x \in DOMAIN us \ {u} |-> us[x]]
Known(tab, c) == IF c \in DOMAIN tab THEN tab[c] ELSE <<>>
Min(a, b) == IF a < b THEN a ELSE b
(* drawing the numbers r at position n of c *)
Agrees(tab, c, n, r) == LET k == Known(tab, c) IN
    \A i \in 1..Len(r) : n + i <= Len(k) => k[n + i] = r[i]
Learn(tab, c, n, r) == LET k == Known(tab, c)
                           new == SubSeq(r, Min(Len(r), Len(k) - n) + 1, Len(r)) IN
    (c :> (k \o new)) @@ tab
=============================================================================

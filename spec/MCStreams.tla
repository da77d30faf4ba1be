------------------------------ MODULE MCStreams ------------------------------
(* Learning never contradicts itself if the numbers really are a function of *)
(* configuration and position, whatever the order of calls: F is an          *)
(* arbitrary such function.  And if some generator strays from it and others *)
(* do not, the table notices as soon as both were seen.                      *)
EXTENDS Streams, FiniteSets
CONSTANTS C, U, N
VARIABLES us, tab, F, seen, bad
vars == <<us, tab, F, seen, bad>>
Init == us = NoUnits /\ tab = [c \in {} |-> <<>>] /\ F \in [C -> [1..N -> {0, 1}]] /\ seen = {} /\ bad = FALSE
Draw(u, off) == LET x == us[u]
                    v == (F[x.c][x.n + 1] + off) % 2 IN
    /\ x.n < N
    /\ bad' = (bad \/ ~Agrees(tab, x.c, x.n, <<v>>))
    /\ tab' = Learn(tab, x.c, x.n, <<v>>)
    /\ seen' = seen \cup {<<x.c, x.n, off>>}
    /\ us' = [us EXCEPT ![u].n = x.n + 1] /\ UNCHANGED F
Next == \/ \E u \in U \ DOMAIN us, c \in C : us' = New(us, u, c) /\ UNCHANGED <<tab, F, seen, bad>>
        \/ \E u \in DOMAIN us : us' = New(us, u, us[u].c) /\ UNCHANGED <<tab, F, seen, bad>>
        \/ \E u \in DOMAIN us, v \in U \ DOMAIN us : us' = Copy(us, u, v) /\ UNCHANGED <<tab, F, seen, bad>>
        \/ \E u \in DOMAIN us, off \in {0, 1} : Draw(u, off)
Spec == Init /\ [][Next]_vars
Honest == (\A x \in seen : x[3] = 0) => ~bad
Notices == bad \/ \A c \in C, n \in 0..(N - 1) : {<<c, n, 0>>, <<c, n, 1>>} \ seen # {}
=============================================================================

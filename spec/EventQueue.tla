------------------------------ MODULE EventQueue ------------------------------
(* The event queue: a set of items <<id, time, priority, tag, number>> where  *)
(* number counts the insertions.  They leave in the order of time, priority,  *)
(* tag, number.                                                               *)
EXTENDS Integers, Sequences, FiniteSets

NoItems == [in |-> {}, n |-> 0]
Before(a, b) == \/ a[2] < b[2]
                \/ a[2] = b[2] /\ \/ a[3] < b[3]
                                  \/ a[3] = b[3] /\ \/ a[4] < b[4]
                                                    \/ a[4] = b[4] /\ a[5] < b[5]
Insert(q, id, t, p, g) == [in |-> q.in \cup {<<id, t, p, g, q.n>>}, n |-> q.n + 1]
First(q) == CHOOSE a \in q.in : \A b \in q.in : a = b \/ Before(a, b)
Remove(q) == [q EXCEPT !.in = @ \ {First(q)}]
FrontIds(q) == IF q.in = {} THEN <<>> ELSE <<First(q)[1]>>
RECURSIVE InsertAll(_, _)
InsertAll(q, s) == IF s = <<>> THEN q ELSE InsertAll(Insert(q, s[1].id, s[1].t, s[1].p, s[1].g), Tail(s))
===============================================================================

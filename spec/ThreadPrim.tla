------------------------------ MODULE ThreadPrim ------------------------------
(* What the queues, barriers and locks shared by simulation threads promise,  *)
(* over histories of calls and returns.  A queue is, per producer, the        *)
(* sequence of items inserted and not removed.  A call takes effect at one    *)
(* moment between its call and its return; which, is not visible, so the      *)
(* state is the set of all configurations the history allows.                 *)
EXTENDS Integers, Sequences, FiniteSets

(* a configuration: q - items per thread, pend - calls under way that had no effect yet, lin - those that had *)
NoCalls(n) == [q |-> [i \in 1..n |-> <<>>], pend |-> {}, lin |-> {}]
RECURSIVE Sum(_, _)
Sum(q, i) == IF i = 0 THEN 0 ELSE Len(q[i]) + Sum(q, i - 1)
Held(q) == Sum(q, Len(q))
Puts == {"ins", "tins"}
Takes == {"rem", "trem"}

(* the effects a call p can have now in configuration c; it fails to put only
   when the queue is full, to take only when it is empty; as seen while another
   thread is in the middle of a call of the other kind *)
Busy(c, p, K) == \E x \in c.pend \cup {y.p : y \in c.lin} : x.t # p.t /\ x.op \in K
Effects(c, p, cap) ==
  IF p.op \in Puts
  THEN (IF Held(c.q) < cap THEN {[q |-> [c.q EXCEPT ![p.t] = Append(@, p.a)], r |-> 1]} ELSE {})
       \cup (IF p.op = "tins" /\ (Held(c.q) >= cap \/ Busy(c, p, Takes)) THEN {[q |-> c.q, r |-> 0]} ELSE {})
  ELSE {[q |-> [c.q EXCEPT ![i] = Tail(@)], r |-> Head(c.q[i])] : i \in {j \in 1..Len(c.q) : c.q[j] # <<>>}}
       \cup (IF p.op = "trem" /\ (Held(c.q) = 0 \/ Busy(c, p, Puts)) THEN {[q |-> c.q, r |-> -1]} ELSE {})
After(c, cap) == UNION {{[q |-> e.q, pend |-> c.pend \ {p}, lin |-> c.lin \cup {[p |-> p, r |-> e.r]}] : e \in Effects(c, p, cap)} : p \in c.pend}
RECURSIVE Closure(_, _, _)
Closure(S, new, cap) == LET n == UNION {After(c, cap) : c \in new} \ S IN IF n = {} THEN S ELSE Closure(S \cup n, n, cap)

Called(S, t, op, a) == {[c EXCEPT !.pend = @ \cup {[t |-> t, op |-> op, a |-> a]}] : c \in S}
Returned(S, t, r, cap) ==
  LET all == Closure(S, S, cap) IN
  {[c EXCEPT !.lin = {y \in @ : y.p.t # t}] : c \in {d \in all : \E y \in d.lin : y.p.t = t /\ y.r = r}}
===============================================================================

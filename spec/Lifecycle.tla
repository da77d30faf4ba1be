------------------------------ MODULE Lifecycle ------------------------------
(* The phases a simulation goes through and the untimed data sent in them.    *)
(* Stages: 0 construction, 1 initialization (numbered phases), 2 setup,       *)
(* 3 run, 4 completion (numbered phases), 5 finish.                           *)
(* A component is at <<stage, phase>> and inside it or past it.  Queues hold   *)
(* the untimed data sent towards one end of a link as [v, at]: the value and  *)
(* the phase from which it can be received.                                   *)
EXTENDS Integers, Sequences, FiniteSets

(* rk[c] is the rank of component c; restart: the run was started from a      *)
(* checkpoint, so the stages before the run are not gone through again.       *)
Initial(rk, nq, restart) ==
  [rk |-> rk, at |-> [c \in DOMAIN rk |-> IF restart THEN <<2, 0, FALSE>> ELSE <<-1, 0, FALSE>>],
   q |-> [i \in 1..nq |-> <<>>], sent |-> {}, top |-> <<-1, 0>>]
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
(* c has completely done stage st, phase ph *)
Past(s, c, st, ph) == LET a == s.at[c] IN Before(<<st, ph>>, a) \/ (a[1] = st /\ a[2] = ph /\ ~a[3])
Ranked(s, c) == {d \in DOMAIN s.rk : s.rk[d] = s.rk[c]}
All(s) == DOMAIN s.rk
Prev(st, ph) == <<st, ph - 1>>

(* Phases of stage st go on exactly while the previous one sent something. *)
CanBegin(s, c, st, ph) ==
  LET a == s.at[c] IN
  /\ ~a[3]
  /\ CASE st = 0 -> a[1] = -1
       [] st = 1 /\ ph = 0 -> a[1] = 0 /\ \A d \in Ranked(s, c) : Past(s, d, 0, 0)
       [] st \in {1, 4} /\ ph > 0 -> a[1] = st /\ a[2] = ph - 1 /\ <<st, ph - 1>> \in s.sent
                                     /\ \A d \in All(s) : Past(s, d, st, ph - 1)
       [] st = 2 -> a[1] = 1 /\ <<1, a[2]>> \notin s.sent /\ \A d \in All(s) : Past(s, d, 1, a[2])
       [] st = 3 -> a[1] \in {2, 3} /\ \A d \in Ranked(s, c) : Past(s, d, 2, 0)
       [] st = 4 /\ ph = 0 -> a[1] \in {2, 3} /\ \A d \in Ranked(s, c) : Past(s, d, 2, 0)
       [] st = 5 -> a[1] = 4 /\ <<4, a[2]>> \notin s.sent /\ \A d \in All(s) : Past(s, d, 4, a[2])
       [] OTHER -> FALSE
(* Data of the initialization that nobody read is gone when the completion begins. *)
Begin(s, c, st, ph) ==
  [s EXCEPT !.at[c] = <<st, ph, TRUE>>,
            !.q = IF st = 4 /\ Before(s.top, <<4, 0>>) THEN [i \in DOMAIN s.q |-> <<>>] ELSE @,
            !.top = IF Before(@, <<st, ph>>) THEN <<st, ph>> ELSE @]
CanEnd(s, c, st, ph) == s.at[c] = <<st, ph, TRUE>>
End(s, c) == [s EXCEPT !.at[c][3] = FALSE]
(* An activity of the run: between all setups and all completions of the rank. *)
CanRun(s, c) == ~s.at[c][3] /\ CanBegin(s, c, 3, 0) /\ \A d \in Ranked(s, c) : s.at[d][1] \in {2, 3}
Run(s, c) == [s EXCEPT !.at[c] = <<3, 0, FALSE>>]

CanSend(s, c, st, ph) == st \in {1, 4} /\ s.at[c] = <<st, ph, TRUE>>
Send(s, i, v, st, ph) == [s EXCEPT !.q[i] = Append(@, [v |-> v, at |-> ph + 1]), !.sent = @ \cup {<<st, ph>>}]
(* What a receive at the end of queue i gives in phase ph (0: nothing) *)
Front(s, i, ph) == IF s.q[i] = <<>> THEN 0 ELSE IF Head(s.q[i]).at > ph THEN 0 ELSE Head(s.q[i]).v
Recv(s, i, ph) == IF Front(s, i, ph) = 0 THEN s ELSE [s EXCEPT !.q[i] = Tail(@)]
=============================================================================

------------------------------ MODULE Kernel ------------------------------
(* The discrete event kernel as its components see it.                      *)
(*                                                                          *)
(* G is a static model description:                                         *)
(*   G.n                   number of components 1..n                        *)
(*   G.ports[c][p]         [k: kind, pc, pp: peer component/port, lat, xs]  *)
(*        k = "h" handler link, "p" polled link, "s"/"q" self link          *)
(*        lat = latency of the link in the direction away from c plus the   *)
(*        latencies the two ends added                                      *)
(*        ports are numbered in the order in which they were configured     *)
(*   G.clocks[c][h]        [per, ord, on]                                   *)
(*   G.prim[c]             1 if c is a primary component                    *)
(*   G.stop                stop time, 0 if there is none                    *)
(* S is the dynamic state:                                                  *)
(*   S.q[c][p]   events travelling towards port p of c, in delivery order:  *)
(*               <<time, value, seq>>                                       *)
(*   S.clk[c][h] [a: active, n: time of the next tick]                      *)
(*   S.sq[c]     number of events ever queued for c                         *)
(*   S.votes     components that currently ask the simulation not to end    *)
(*   S.endt      -1 or the time the last vote was withdrawn                 *)
(*   S.now       time of the latest activity                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Inf == 2147483647

IsHandled(G, c, p) == G.ports[c][p].k \in {"h", "s"}
IsSelf(G, c, p) == G.ports[c][p].k \in {"s", "q"}

InitState(G) ==
  [ q     |-> [c \in 1..G.n |-> [p \in 1..Len(G.ports[c]) |-> <<>>]],
    clk   |-> [c \in 1..G.n |-> [h \in 1..Len(G.clocks[c]) |->
                 [a |-> G.clocks[c][h].on = 1, n |-> G.clocks[c][h].per]]],
    sq    |-> [c \in 1..G.n |-> 0],
    votes |-> {c \in 1..G.n : G.prim[c] = 1},
    endt  |-> -1,
    now   |-> 0 ]

(* Stable insertion by time: behind everything due at the same time.        *)
Insert(s, e) ==
  LET k == Cardinality({i \in 1..Len(s) : s[i][1] <= e[1]})
  IN  SubSeq(s, 1, k) \o <<e>> \o SubSeq(s, k + 1, Len(s))

-----------------------------------------------------------------------------
(* Effects of the calls a component makes while one of its handlers runs.   *)

Send(G, S, c, p, t, delay, v) ==
  LET P == G.ports[c][p]
      at == t + delay + P.lat
      d == P.pc
      e == <<at, v, S.sq[d]>>
  IN  [S EXCEPT !.q[d][P.pp] = Insert(@, e), !.sq[d] = @ + 1]

(* What a poll at time t returns: -1 for nothing.                           *)
Available(S, c, p, t) == S.q[c][p] # <<>> /\ Head(S.q[c][p])[1] <= t
PollValue(S, c, p, t) == IF Available(S, c, p, t) THEN Head(S.q[c][p])[2] ELSE -1
Poll(S, c, p, t) == IF Available(S, c, p, t) THEN [S EXCEPT !.q[c][p] = Tail(@)] ELSE S

NextTick(per, t) == (t \div per + 1) * per
Activate(G, S, c, h, t) ==
  IF S.clk[c][h].a THEN S
  ELSE [S EXCEPT !.clk[c][h] = [a |-> TRUE, n |-> NextTick(G.clocks[c][h].per, t)]]
Deactivate(S, c, h) == [S EXCEPT !.clk[c][h].a = FALSE]

VoteOk(G, S, c, t) ==
  IF c \notin S.votes THEN S
  ELSE LET v == S.votes \ {c}
       IN  [S EXCEPT !.votes = v, !.endt = IF v = {} THEN t ELSE @]
VoteNo(G, S, c, t) ==
  IF G.prim[c] = 1 THEN [S EXCEPT !.votes = @ \cup {c}] ELSE S

(* One call o made by c at time t; h is the handler running, 0 in an event. *)
(* OpOk says whether the result the component saw is the specified one.     *)
OpOk(G, S, c, t, h, o) ==
  CASE o[1] = "r" -> o[3] = PollValue(S, c, o[2] + 1, t)
    [] o[1] = "a" -> o[3] = NextTick(G.clocks[c][o[2] + 1].per, t) \div G.clocks[c][o[2] + 1].per
    [] o[1] = "g" -> LET per == G.clocks[c][o[2] + 1].per
                         x == t \div per
                     IN  \/ o[3] = x + 1
                         \/ /\ h > 0 /\ t % per = 0 /\ G.clocks[c][h].per # per
                            /\ o[3] = x
    [] o[1] = "t" -> o[2] = t /\ o[3] = t
    [] OTHER -> TRUE

Apply(G, S, c, t, o) ==
  CASE o[1] = "s" -> Send(G, S, c, o[2] + 1, t, o[3], o[4])
    [] o[1] = "r" -> Poll(S, c, o[2] + 1, t)
    [] o[1] = "a" -> Activate(G, S, c, o[2] + 1, t)
    [] o[1] = "d" -> Deactivate(S, c, o[2] + 1)
    [] o[1] = "ok" -> VoteOk(G, S, c, t)
    [] o[1] = "no" -> VoteNo(G, S, c, t)
    [] OTHER -> S

RECURSIVE Ops(_, _, _, _, _, _, _)
(* <<state, 0>> after all calls, or <<state, i>> if call i saw a wrong result *)
Ops(G, S, c, t, h, os, i) ==
  IF i > Len(os) THEN <<S, 0>>
  ELSE IF ~OpOk(G, S, c, t, h, os[i]) THEN <<S, i>>
  ELSE Ops(G, Apply(G, S, c, t, os[i]), c, t, h, os, i + 1)

-----------------------------------------------------------------------------
(* What is due.                                                             *)

MinOf(s) == IF s = {} THEN Inf ELSE CHOOSE x \in s : \A y \in s : x <= y
DueEvent(G, S, c) ==
  MinOf({Head(S.q[c][p])[1] : p \in {x \in 1..Len(G.ports[c]) : IsHandled(G, c, x) /\ S.q[c][x] # <<>>}})
DueClock(G, S, c) ==
  MinOf({S.clk[c][h].n : h \in {x \in 1..Len(G.clocks[c]) : S.clk[c][x].a}})
Due(G, S, c) == LET a == DueEvent(G, S, c) b == DueClock(G, S, c) IN IF a < b THEN a ELSE b

(* Nothing anywhere is due before t.                                        *)
NothingBefore(G, S, t) == \A c \in 1..G.n : Due(G, S, c) >= t

(* Order between two queue heads of one component that are due together.    *)
Precedes(G, S, c, p, r) ==
  IF IsSelf(G, c, p) /\ IsSelf(G, c, r) THEN Head(S.q[c][p])[3] <= Head(S.q[c][r])[3]
  ELSE IF IsSelf(G, c, p) # IsSelf(G, c, r) THEN IsSelf(G, c, r)
  ELSE p <= r

DeliverWhy(G, S, c, t, p, v) ==
  IF ~(p \in 1..Len(G.ports[c]) /\ IsHandled(G, c, p)) THEN "delivery on a port that has no handler"
  ELSE IF t < S.now THEN "time went backwards"
  ELSE IF S.q[c][p] = <<>> THEN "delivery of an event that is not on its way"
  ELSE IF Head(S.q[c][p])[1] # t THEN "delivery at the wrong time"
  ELSE IF Head(S.q[c][p])[2] # v THEN "delivery of the wrong payload or out of sending order"
  ELSE IF DueClock(G, S, c) <= t THEN "event handled before a clock tick that is due"
  ELSE IF \E r \in 1..Len(G.ports[c]) :
            /\ r # p /\ IsHandled(G, c, r) /\ S.q[c][r] # <<>>
            /\ Head(S.q[c][r])[1] = t /\ ~Precedes(G, S, c, p, r)
       THEN "events of one time handled out of port order"
  ELSE IF ~NothingBefore(G, S, t) THEN "something that was due earlier has not happened"
  ELSE ""

TickWhy(G, S, c, t, h, cy) ==
  IF ~(h \in 1..Len(G.clocks[c])) THEN "unknown clock handler"
  ELSE IF t < S.now THEN "time went backwards"
  ELSE IF ~S.clk[c][h].a THEN "tick of an inactive clock handler"
  ELSE IF S.clk[c][h].n # t THEN "tick at the wrong time"
  ELSE IF cy * G.clocks[c][h].per # t THEN "wrong cycle number"
  ELSE IF \E k \in 1..(h - 1) :
            /\ G.clocks[c][h].ord = 1 /\ G.clocks[c][k].ord = 1
            /\ G.clocks[c][k].per = G.clocks[c][h].per
            /\ S.clk[c][k].a /\ S.clk[c][k].n = t
       THEN "ordered clock handlers out of order"
  ELSE IF ~NothingBefore(G, S, t) THEN "something that was due earlier has not happened"
  ELSE ""

AfterDeliver(S, c, t, p) == [S EXCEPT !.q[c][p] = Tail(@), !.now = t]
AfterTick(G, S, c, t, h, w) ==
  [S EXCEPT !.clk[c][h] = [a |-> w = 0 /\ @.a, n |-> @.n + G.clocks[c][h].per], !.now = t]

(* The run ended at time e.                                                 *)
EndWhy(G, S, e) ==
  IF G.stop > 0
  THEN IF e # G.stop /\ ~(S.endt >= 0 /\ S.endt < G.stop /\ e = S.endt) THEN "wrong end time"
       ELSE IF S.now >= G.stop THEN "activity at or after the stop time"
       ELSE IF e = G.stop /\ ~NothingBefore(G, S, G.stop) THEN "the run ended before everything before the stop time was done"
       ELSE IF e # G.stop /\ ~NothingBefore(G, S, e + 1) THEN "the run ended before everything due was done"
       ELSE ""
  ELSE IF S.votes # {} THEN "the run ended while a primary component asked it not to"
  ELSE IF S.endt # e THEN "wrong end time"
  ELSE IF ~NothingBefore(G, S, e + 1) THEN "the run ended before everything due was done"
  ELSE ""
=============================================================================

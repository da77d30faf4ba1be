----------------------------- MODULE MCKernel -----------------------------
(* Exhaustive exploration of Kernel on small models: components may do      *)
(* anything the interface allows, and the statements of the properties are  *)
(* checked on ghost history that the specification itself does not use.     *)
EXTENDS Kernel

CONSTANTS Model,      \* which static model
          MaxSend, MaxT, MaxOps, MaxCalls

P(k, pc, pp, lat) == [k |-> k, pc |-> pc, pp |-> pp, lat |-> lat]
C(per, ord, on) == [per |-> per, ord |-> ord, on |-> on]

Models ==
  [ \* two components, two parallel links of different latency, a self link
    links |-> [n |-> 2, ports |-> << <<P("h", 2, 1, 1), P("h", 2, 2, 2), P("s", 1, 3, 1)>>, <<P("h", 1, 1, 1), P("p", 1, 2, 1)>> >>,
               clocks |-> << <<C(2, 0, 1)>>, <<C(3, 0, 1)>> >>, prim |-> <<1, 0>>, stop |-> 0],
    \* three components in a ring, colliding arrivals
    ring  |-> [n |-> 3, ports |-> << <<P("h", 2, 2, 1), P("h", 3, 1, 1)>>, <<P("h", 3, 2, 1), P("h", 1, 1, 1)>>, <<P("h", 1, 2, 1), P("h", 2, 1, 1)>> >>,
               clocks |-> << <<C(1, 0, 1)>>, << >>, << >> >>, prim |-> <<1, 0, 0>>, stop |-> 4],
    \* clocks only: ordered and plain ones, several periods
    clk   |-> [n |-> 1, ports |-> << <<P("s", 1, 1, 1)>> >>,
               clocks |-> << <<C(2, 1, 1), C(2, 1, 0), C(3, 0, 1), C(2, 1, 1)>> >>, prim |-> <<1>>, stop |-> 0],
    \* votes
    end   |-> [n |-> 3, ports |-> << <<P("h", 2, 1, 1)>>, <<P("h", 1, 1, 2)>>, << >> >>,
               clocks |-> << <<C(2, 0, 1)>>, <<C(3, 0, 1)>>, <<C(2, 0, 1)>> >>, prim |-> <<1, 1, 0>>, stop |-> 0] ]

G == Models[Model]

VARIABLES S,
          sent,     \* ghost: every send <<c, p, at, v>> (destination port)
          got,      \* ghost: <<c, p, at, v>> in the order of delivery, per component
          ticks,    \* ghost: <<c, h, t>>
          lastAct,  \* ghost: [c][h] time of the latest activation (or -1), deactivated -> -2
          nsent, ncall, over
vars == <<S, sent, got, ticks, lastAct, nsent, ncall, over>>

Init == /\ S = InitState(G)
        /\ sent = {} /\ got = [c \in 1..G.n |-> <<>>] /\ ticks = {}
        /\ lastAct = [c \in 1..G.n |-> [h \in 1..Len(G.clocks[c]) |-> IF G.clocks[c][h].on = 1 THEN 0 ELSE -2]]
        /\ nsent = 0 /\ ncall = 0 /\ over = FALSE

(* The calls a handler may make; each is also noted in the ghosts.          *)
Calls(c, t) ==
  {<<"s", p - 1, d, nsent + 1>> : p \in IF nsent < MaxSend THEN 1..Len(G.ports[c]) ELSE {}, d \in 0..1}
  \cup (IF ncall < MaxCalls
        THEN {<<x, h - 1>> : x \in {"a", "d"}, h \in 1..Len(G.clocks[c])} \cup {<<"ok">>, <<"no">>}
        ELSE {})
  \cup {<<"r", p - 1, 0>> : p \in {x \in 1..Len(G.ports[c]) : G.ports[c][x].k = "p"}}

(* A handler of c at t made the calls os (0 or 1 of them).                  *)
Effects(c, t, S0, o) ==
  /\ S' = Apply(G, S0, c, t, o)
  /\ IF o[1] = "s"
     THEN LET Q == G.ports[c][o[2] + 1]
          IN /\ sent' = sent \cup {<<Q.pc, Q.pp, t + o[3] + Q.lat, o[4]>>}
             /\ nsent' = nsent + 1 /\ UNCHANGED <<lastAct, ncall>>
     ELSE /\ IF o[1] \in {"a", "d"}
             THEN lastAct' = [lastAct EXCEPT ![c][o[2] + 1] =
                    IF o[1] = "d" THEN -2 ELSE IF @ = -2 THEN t ELSE @]
             ELSE UNCHANGED lastAct
          /\ ncall' = IF o[1] = "r" THEN ncall ELSE ncall + 1
          /\ UNCHANGED <<sent, nsent>>

Acts(c, t, S0) == \/ S' = S0 /\ UNCHANGED <<sent, nsent, lastAct, ncall>>
                  \/ \E o \in Calls(c, t) : Effects(c, t, S0, o)

Deliver(c, p) ==
  LET e == Head(S.q[c][p]) t == e[1] IN
  /\ S.q[c][p] # <<>> /\ t <= MaxT
  /\ DeliverWhy(G, S, c, t, p, e[2]) = ""
  /\ got' = [got EXCEPT ![c] = Append(@, <<p, t, e[2]>>)]
  /\ Acts(c, t, AfterDeliver(S, c, t, p))
  /\ UNCHANGED <<ticks, over>>

Tick(c, h) ==
  LET t == S.clk[c][h].n IN
  /\ S.clk[c][h].a /\ t <= MaxT
  /\ TickWhy(G, S, c, t, h, t \div G.clocks[c][h].per) = ""
  /\ ticks' = ticks \cup {<<c, h, t>>}
  /\ Acts(c, t, AfterTick(G, S, c, t, h, 0))
  /\ UNCHANGED <<got, over>>

Time == IF G.stop > 0 THEN G.stop ELSE S.endt
End == /\ EndWhy(G, S, IF G.stop > 0 /\ S.votes # {} THEN G.stop ELSE Time) = ""
       /\ over' = TRUE /\ UNCHANGED <<S, sent, got, ticks, lastAct, nsent, ncall>>

Next == ~over /\ (\/ \E c \in 1..G.n : \/ \E p \in 1..Len(G.ports[c]) : IsHandled(G, c, p) /\ Deliver(c, p)
                                       \/ \E h \in 1..Len(G.clocks[c]) : Tick(c, h)
                  \/ End)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Gots == UNION {{<<c, got[c][i][1], got[c][i][2], got[c][i][3]>> : i \in 1..Len(got[c])} : c \in 1..G.n}
InFlight == UNION {UNION {{<<c, p, S.q[c][p][i][1], S.q[c][p][i][2]>> : i \in 1..Len(S.q[c][p])}
                          : p \in 1..Len(G.ports[c])} : c \in 1..G.n}
Polled == {x \in sent : ~IsHandled(G, x[1], x[2])}

(* P01 every event handled was sent and handled at its time; none is lost, duplicated or overtaken by time *)
ExactlyOnce == /\ Gots \subseteq sent
               /\ \A c \in 1..G.n : Cardinality({got[c][i] : i \in 1..Len(got[c])}) = Len(got[c])
               /\ (sent \ Polled) = (Gots \cup {x \in InFlight : IsHandled(G, x[1], x[2])})
               /\ Gots \cap InFlight = {}
NoneLate == \A x \in InFlight : IsHandled(G, x[1], x[2]) => x[3] >= S.now
Monotone == [][S'.now >= S.now]_vars
(* P02 deliveries of one component are ordered by time, then port, then sending order *)
PortOrder == \A c \in 1..G.n : \A i, j \in 1..Len(got[c]) :
  i < j => LET a == got[c][i] b == got[c][j] IN
     /\ a[2] <= b[2]
     /\ (a[1] = b[1] /\ a[2] = b[2]) => a[3] < b[3]
     /\ (a[2] = b[2] /\ G.ports[c][a[1]].k = "h" /\ G.ports[c][b[1]].k = "h") => a[1] <= b[1]
     /\ (a[2] = b[2] /\ G.ports[c][b[1]].k = "h") => G.ports[c][a[1]].k = "h"
(* P04 a handler active over a whole period ticks at each multiple, and only there *)
TickTimes == \A x \in ticks : x[3] % G.clocks[x[1]][x[2]].per = 0 /\ x[3] > 0
NoTickLost == \A c \in 1..G.n : \A h \in 1..Len(G.clocks[c]) :
  lastAct[c][h] >= 0 =>
     \A t \in (lastAct[c][h] + 1)..(S.now - 1) : t % G.clocks[c][h].per = 0 => <<c, h, t>> \in ticks
(* P06 *)
Ended == over => /\ S.votes = {} \/ (G.stop > 0 /\ S.now < G.stop)
                 /\ G.stop = 0 => \A c \in 1..G.n : Due(G, S, c) > S.endt
EndTime == (S.votes = {} /\ ~over) => S.endt >= 0 /\ S.endt <= S.now
=============================================================================

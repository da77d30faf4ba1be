---------------------------- MODULE PortModTrace ----------------------------
(* Logs of all components merged by simulated time.  Header: mods, stack[p]   *)
(* the modules of port p, peer[p], lat[p] latency of what port p sends,       *)
(* comp[p], poll[p].                                                          *)
EXTENDS PortMod, Json, IOUtils, TLC
VARIABLES tr, l, st
Data == JsonDeserialize(IOEnv.VF_TRACES)
St0(h) == [mods |-> h.mods, stack |-> h.stack, peer |-> h.peer, lat |-> h.lat, poll |-> h.poll, comp |-> h.comp,
           n |-> [m \in DOMAIN h.mods |-> 0], fly |-> [p \in DOMAIN h.stack |-> {}], q |-> 0, T |-> 0,
           due |-> [c \in 1..h.nc |-> <<>>]]
R(s, ok, why) == [st |-> s, ok |-> ok, why |-> why]
None == [x |-> "none", m |-> 0, v |-> 0, d |-> "", t |-> 0]
\* An event at the end of the sending side gets under way.
Settle(s, c) ==
  IF s.due[c] # <<>> /\ Head(s.due[c]).x = "fly"
  THEN LET e == Head(s.due[c]) IN [s EXCEPT !.due[c] = Tail(@), !.fly[e.m] = @ \cup {[t |-> e.t, q |-> s.q, v |-> e.v]}, !.q = @ + 1]
  ELSE s
Id(v) == v % 100000
\* A module that drops with some probability is always between two that record what they see.
Unmaybe(s, c, r) ==
  LET L == s.due[c] IN
  IF L # <<>> /\ Head(L).x = "maybe"
  THEN IF r.x = "mod" /\ L[2].m = r.m /\ Id(L[2].v) = Id(r.v) THEN [s EXCEPT !.due[c] = Tail(@)] ELSE [s EXCEPT !.due[c] = <<>>]
  ELSE s
Can(s, p, t) == s.fly[p] # {} /\ LET e == First(s.fly[p]) IN e.t = t \/ (s.poll[p] = 1 /\ e.t <= t)
Arrival(s, c, p) ==
  LET e == First(s.fly[p]) IN
  [s EXCEPT !.fly[p] = @ \ {e}, !.due[c] = Pipe(s.mods, s.n, s.stack[p], "r", e.v, [None EXCEPT !.x = "got", !.m = p])]
Match(s, r) ==
  LET c == r.c  e == Head(s.due[c]) IN
  IF r.x = "mod"
  THEN R(Settle([s EXCEPT !.n[r.m] = @ + 1, !.due[c] = Tail(@)], c),
         e.x = "mod" /\ e.m = r.m /\ e.v = r.v /\ e.d = r.dl /\ r.g = 1 /\ r.n = s.n[r.m], << "due", e, "recorded", r, "seen", s.n[r.m] >>)
  ELSE R([s EXCEPT !.due[c] = Tail(@)], e.x = "got" /\ e.m = r.p /\ e.v = r.v, << "due", e, "recorded", r >>)
Do(s, r) ==
  IF r.x = "done" THEN
    LET D == [c \in DOMAIN s.due |-> IF s.due[c] # <<>> /\ Head(s.due[c]).x = "maybe" THEN <<>> ELSE s.due[c]]
        W == {p \in DOMAIN s.fly : s.poll[p] = 0 /\ \E e \in s.fly[p] : e.t < r.t}
    IN R(s, (\A c \in DOMAIN D : D[c] = <<>>) /\ W = {}, << "left over at the end", D, [p \in W |-> s.fly[p]] >>)
  ELSE LET t == Unmaybe(s, r.c, r) IN
    IF r.x = "snd" THEN
      R(Settle([t EXCEPT !.due[r.c] = Pipe(s.mods, t.n, s.stack[r.p], "s", r.v, [None EXCEPT !.x = "fly", !.m = s.peer[r.p], !.t = r.t + r.d + s.lat[r.p]])], r.c),
        t.due[r.c] = <<>>, << "a send while due:", t.due[r.c] >>)
    ELSE IF t.due[r.c] # <<>> THEN Match(t, r)
    ELSE LET p == IF r.x = "got" THEN r.p ELSE s.mods[r.m].port IN
      IF ~Can(t, p, r.t) THEN R(t, FALSE, << "no event is due at port", p, "under way", t.fly[p], "recorded", r >>)
      ELSE Match(Arrival(t, r.c, p), r)
INSTANCE Replay WITH Start <- St0, Step <- Do
=============================================================================

----------------------------- MODULE MCPortMod -----------------------------
(* One link in one direction.  The sending and delivering loops go through    *)
(* the attached modules one at a time; what each module and the receiver see  *)
(* is compared with the definition (Pipe).                                    *)
EXTENDS PortMod, TLC
CONSTANTS NMod,          \* modules on each side
          Events, Lat, MaxT,
          StopAtCancel,  \* FALSE: later modules see a cancelled event
          PlanSet        \* plans
VARIABLES now, todo, fly, n, loop, seen, want, mods, got
vars == <<now, todo, fly, n, loop, seen, want, mods, got>>
Plans == {<<"p">>, <<"m", "c">>, <<"x">>, <<"c", "p">>}
Ids == 1..NMod
Idle == [side |-> "", i |-> 0, v |-> 0, alive |-> FALSE]
Init ==
  /\ now = 0 /\ todo = Events /\ fly = {} /\ n = [m \in Ids |-> 0] /\ loop = Idle /\ seen = <<>> /\ want = <<>> /\ got = <<>>
  /\ mods \in [Ids -> {[kind |-> "m", plan |-> p, add |-> 100, send |-> a, recv |-> b, pr |-> 0, port |-> 1] : p \in PlanSet, a \in {0, 1}, b \in {0, 1}}]
Expect(side, v, end) == Pipe(mods, n, [i \in Ids |-> i], side, v, [x |-> end, m |-> 0, v |-> 0, d |-> "", t |-> 0])
Send == loop.side = "" /\ todo # {} /\ \E e \in todo :
  /\ (\A f \in todo : e <= f) /\ todo' = todo \ {e} /\ loop' = [side |-> "s", i |-> 1, v |-> e, alive |-> TRUE]
  /\ want' = want \o Expect("s", e, "fly") /\ UNCHANGED <<now, fly, n, seen, mods, got>>
Tick == loop.side = "" /\ now < MaxT /\ (\A e \in fly : e.t > now) /\ now' = now + 1 /\ UNCHANGED <<todo, fly, n, loop, seen, want, mods, got>>
Deliver == loop.side = "" /\ fly # {} /\ LET e == First(fly) IN
  /\ e.t = now /\ fly' = fly \ {e} /\ loop' = [side |-> "r", i |-> 1, v |-> e.v, alive |-> TRUE]
  /\ want' = want \o Expect("r", e.v, "got") /\ UNCHANGED <<now, todo, n, seen, mods, got>>
Module == loop.side # "" /\ loop.i <= NMod /\ (loop.alive \/ ~StopAtCancel) /\
  LET m == mods[loop.i] IN
  IF ~Side(m, loop.side) THEN loop' = [loop EXCEPT !.i = @ + 1] /\ UNCHANGED <<now, todo, fly, n, seen, want, mods, got>>
  ELSE LET d == Letter(m, n[loop.i]) IN
    /\ seen' = Append(seen, [x |-> "mod", m |-> loop.i, v |-> loop.v, d |-> d, t |-> 0])
    /\ loop' = [loop EXCEPT !.i = @ + 1, !.v = Out(m, n[loop.i], @), !.alive = @ /\ d # "c"]
    /\ n' = [n EXCEPT ![loop.i] = @ + 1] /\ UNCHANGED <<now, todo, fly, want, mods, got>>
Finish ==
  /\ loop.side # "" /\ (loop.i > NMod \/ (StopAtCancel /\ ~loop.alive))
  /\ loop' = Idle
  /\ seen' = IF loop.alive THEN Append(seen, [x |-> IF loop.side = "s" THEN "fly" ELSE "got", m |-> 0, v |-> loop.v, d |-> "", t |-> 0]) ELSE seen
  /\ fly' = IF loop.alive /\ loop.side = "s" THEN fly \cup {[t |-> now + Lat, q |-> Len(seen), v |-> loop.v]} ELSE fly
  /\ got' = IF loop.alive /\ loop.side = "r" THEN Append(got, <<loop.v, now>>) ELSE got
  /\ UNCHANGED <<now, todo, n, want, mods>>
Next == Send \/ Tick \/ Deliver \/ Module \/ Finish
Spec == Init /\ [][Next]_vars
Follows == Len(seen) <= Len(want) /\ \A i \in 1..Len(seen) : seen[i] = want[i]
Complete == loop.side = "" => seen = want
Alone == \A i \in 1..Len(got) : got[i][2] <= now            \* and in sending order:
InOrder == \A i, j \in 1..Len(got) : i < j => got[i][1] % 100 < got[j][1] % 100
=============================================================================

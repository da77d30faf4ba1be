--------------------------- MODULE ThreadPrimTrace ---------------------------
EXTENDS ThreadPrim, TLC, Json, IOUtils
VARIABLES tr, l, st
Data == JsonDeserialize(IOEnv.VF_TRACES)
R(s, ok, why) == [st |-> s, ok |-> ok, why |-> why]
(* barrier: per thread, waits called and waits returned; lock: who holds it, completed sections; extreme: values *)
St0(h) == [k |-> h.kind, cap |-> h.cap, n |-> h.n,
           S |-> {NoCalls(h.n + 1)},
           w |-> [i \in 1..h.n |-> 0], d |-> [i \in 1..h.n |-> 0],
           holder |-> 0, cnt |-> 0, mx |-> 0, mn |-> 0]
Queue(s, e) ==
  CASE e.e = "call" -> R([s EXCEPT !.S = Called(@, e.t, e.op, e.a)], TRUE, "")
    [] e.e = "ret"  -> LET n == Returned(s.S, e.t, e.r, s.cap) IN
                       R([s EXCEPT !.S = n], n # {}, "an item was lost, invented, handed out twice or out of order, or a call failed without cause")
    [] e.e = "rest" -> LET ok(c) == IF e.op = "size" THEN Held(c.q) = e.r ELSE (Held(c.q) = 0) = (e.r = 1)
                           m == {c \in s.S : ok(c)}
                       IN R([s EXCEPT !.S = m], m # {}, "size or emptiness is wrong")
    [] OTHER -> R(s, FALSE, "a call never returned")
Barrier(s, e) ==
  CASE e.op = "wait" /\ e.e = "call" -> R([s EXCEPT !.w[e.t] = @ + 1], TRUE, "")
    [] e.op = "wait" /\ e.e = "ret" ->
         R([s EXCEPT !.d[e.t] = @ + 1], \A u \in 1..s.n : s.w[u] > s.d[e.t], "a barrier released a thread before all had arrived")
    [] e.op = "stale" -> R(s, FALSE, "data written before the barrier is not seen after it")
    [] OTHER -> R(s, \A u \in 1..s.n : s.w[u] > s.d[u] => \E v \in 1..s.n : s.w[v] < s.w[u],
                  "a barrier did not release its threads")
Lock(s, e) ==
  CASE e.op = "lock" -> IF e.e = "call" THEN R(s, TRUE, "")
                        ELSE R([s EXCEPT !.holder = e.t, !.cnt = @ + 1], s.holder = 0, "two threads hold the lock")
    [] e.op = "unlock" -> IF e.e = "call" THEN R([s EXCEPT !.holder = 0], s.holder = e.t, "") ELSE R(s, TRUE, "")
    [] e.op = "count" -> R(s, e.r = s.cnt, "an update made under the lock is lost")
    [] OTHER -> R(s, FALSE, "a thread waits for a free lock for ever")
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Extreme(s, e) ==
  CASE e.e = "call" -> R(IF e.op = "max" THEN [s EXCEPT !.mx = Max(@, e.a)] ELSE [s EXCEPT !.mn = Min(@, e.a)], TRUE, "")
    [] e.e = "rest" -> R(s, e.r = (IF e.op = "max" THEN s.mx ELSE s.mn), "not the largest or smallest value offered")
    [] e.e = "ret" -> R(s, TRUE, "")
    [] OTHER -> R(s, FALSE, "a call never returned")
Do(s, e) ==
  IF e.e = "race" THEN R(s, FALSE, e.op)
  ELSE CASE s.k \in {"bounded", "unbounded"} -> Queue(s, e)
         [] s.k = "barrier" -> Barrier(s, e)
         [] s.k = "lock" -> Lock(s, e)
         [] s.k = "extreme" -> Extreme(s, e)
INSTANCE Replay WITH Start <- St0, Step <- Do
==============================================================================

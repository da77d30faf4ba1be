--------------------------- MODULE LifecycleTrace ---------------------------
(* The merged log of a real run in the order of wall time.  A call that begins *)
(* is logged after it was entered and before it is left, so the logged order   *)
(* of the end of one call and the begin of another one is real.                *)
EXTENDS Lifecycle, Json, IOUtils, TLC
VARIABLES tr, l, st
Data == JsonDeserialize(IOEnv.VF_TRACES)
St0(h) == Initial(h.rk, h.nq, h.restart = 1)
R(s, ok, why) == [st |-> s, ok |-> ok, why |-> why]
Do(s, r) ==
  CASE r.x = "b" -> R(Begin(s, r.c, r.s, r.ph), CanBegin(s, r.c, r.s, r.ph), << "begins too early or not at all", r.c, <<r.s, r.ph>>, s.at, s.sent >>)
    [] r.x = "e" -> R(End(s, r.c), CanEnd(s, r.c, r.s, r.ph), << "ends a phase it is not in", r.c, s.at[r.c] >>)
    [] r.x = "run" -> R(Run(s, r.c), CanRun(s, r.c), << "activity of the run outside the run", r.c, s.at >>)
    [] r.x = "send" -> R(Send(s, r.q, r.v, r.s, r.ph), CanSend(s, r.c, r.s, r.ph), << "sends outside its phase", r.c, s.at[r.c] >>)
    [] r.x = "recv" -> R(Recv(s, r.q, r.ph), r.g = 1 /\ r.v = Front(s, r.q, r.ph),
                         << "received", r.v, "undamaged", r.g, "expected", Front(s, r.q, r.ph), "queue", s.q[r.q] >>)
    [] r.x = "done" -> R(s, \A c \in DOMAIN s.at : s.at[c] = <<5, 0, FALSE>>, << "not every component finished", s.at >>)
    [] OTHER -> R(s, FALSE, << "impossible", r >>)
INSTANCE Replay WITH Start <- St0, Step <- Do
=============================================================================

---------------------------- MODULE StreamsTrace ----------------------------
EXTENDS Streams, Json, IOUtils
VARIABLES tr, l, st
Data == JsonDeserialize(IOEnv.VF_TRACES)
St0(h) == [us |-> NoUnits, tab |-> [c \in {} |-> <<>>]]
R(s, ok, why) == [st |-> s, ok |-> ok, why |-> why]
Do(s, r) ==
  CASE r.op = "new"  -> R([s EXCEPT !.us = New(s.us, r.u, r.cid)], TRUE, "")
    [] r.op = "copy" -> R([s EXCEPT !.us = Copy(s.us, r.u, r.to)], TRUE, "")
    [] r.op = "seed" -> R([s EXCEPT !.us = New(s.us, r.u, r.cid)], TRUE, "")
    [] r.op = "del"  -> R([s EXCEPT !.us = Drop(s.us, r.u)], TRUE, "")
    [] r.op = "draw" ->
         LET u == s.us[r.u] IN
         IF Len(r.r) # r.n THEN R(s, FALSE, "not the requested number of draws")
         ELSE R([us |-> [s.us EXCEPT ![r.u].n = u.n + r.n], tab |-> Learn(s.tab, u.c, u.n, r.r)],
                Agrees(s.tab, u.c, u.n, r.r),
                "stream differs from the one seen before for the same generator, seed and position")
INSTANCE Replay WITH Start <- St0, Step <- Do
=============================================================================

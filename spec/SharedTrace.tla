---------------------------- MODULE SharedTrace ----------------------------
(* Merged log of a run.  Every operation is logged before it begins (d = 0)    *)
(* and after it has returned (d = 1); one that must fail never returns.        *)
EXTENDS Shared, Json, IOUtils
VARIABLES tr, l, st
Data == JsonDeserialize(IOEnv.VF_TRACES)
St0(h) == Initial(h.nr, h.no, h.nc, h.ns)
R(s, ok, why) == [st |-> s, ok |-> ok, why |-> why]
Fails(s, r) ==
  CASE r.x = "i" -> IniFails(s, r.c, r.r, r.i, r.o, r.ty, r.md, r.a, r.b)
    [] r.x = "w" -> WriteFails(s, r.c, r.r, r.i, r.a, r.b)
    [] OTHER -> FALSE
Exact(s, r) ==
  LET ob == s.ob[r.r][s.sl[r.c][r.i].o] IN
  CASE r.x = "i" -> R([Ini(s, r.c, r.r, r.i, r.o, r.ty, r.md, r.a, r.b) EXCEPT !.ob[r.r][r.o].ret = @ \cup {r.v}],
                      r.v >= 0 /\ r.v \notin s.ob[r.r][r.o].ret /\ (r.one = 1 => r.v = s.ob[r.r][r.o].inst),
                      << "initialize() returned", r.v, "instances so far", s.ob[r.r][r.o].inst >>)
    [] r.x = "w" -> R(Write(s, r.c, r.r, r.i, r.a, r.b), TRUE, <<>>)
    [] r.x = "p" -> R(Publish(s, r.c, r.r, r.i), TRUE, <<>>)
    [] r.x = "r" -> R(s, Shows(ob, r.l) /\ r.n = Size(ob) /\ r.e = (IF r.n = 0 THEN 1 ELSE 0) /\ r.g = 1 /\ (r.f = 1) = ob.full,
                      << "read", r.l, r.n, r.e, "agreeing", r.g, "fully published", r.f, "of", ob >>)
    [] r.x = "f" -> R(s, (r.f = 1) = ob.full, << "fully published", r.f, "of", ob >>)
    [] r.x = "l" -> LET K == DOMAIN ob.c IN
                    R(s, /\ r.v = (IF r.a \in K THEN ob.c[r.a] ELSE -1)
                         /\ r.n = (IF r.a \in K THEN 1 ELSE 0) /\ r.g = 1
                         /\ r.lb \in {-2, Least({k \in K : k >= r.a})} /\ r.ub \in {-2, Least({k \in K : k > r.a})},
                      << "looked up", r, "in", ob.c >>)
    [] OTHER -> R(s, r.x = "-", << "impossible", r >>)
(* The records of a later phase come after the exchange. *)
ToPhase(s, ph) ==
  IF ph <= s.ph THEN s
  ELSE LET m == IF s.ph >= 1000 THEN s ELSE Merge(s) IN [(IF ph >= 1000 THEN Lock(m) ELSE m) EXCEPT !.ph = ph]
Counted(s) == \A r \in DOMAIN s.ob : \A o \in DOMAIN s.ob[r] : s.ob[r][o].ret = 0..(s.ob[r][o].inst - 1)
Do(s, r) ==
  IF r.x = "exit" THEN
    LET ends == \A c \in DOMAIN s.try : s.try[c] = <<>>
        \* one that was about to fail, perhaps because another one that is not logged as done came first
        fails == \/ \E c \in DOMAIN s.try : s.try[c] # <<>> /\
                     (Fails(s, s.try[c][1]) \/ \E d \in DOMAIN s.try \ {c} : s.try[d] # <<>> /\ Fails(Exact(s, s.try[d][1]).st, s.try[c][1]))
                 \/ (s.ph < 1000 /\ MergeFails(s))
    IN R(s, IF r.v = 0 THEN ends /\ ~fails /\ s.ph = 1000 ELSE fails,
         << "exit code", r.v, "every operation returned", ends, "an error is due", fails, s.try, s.ph >>)
  ELSE IF r.x = "R" THEN
    R([s EXCEPT !.ob = [q \in 1..r.nr |-> s.ob[1]]], s.locked, << "restart before the run" >>)
  ELSE
    LET early == r.ph > s.ph /\ s.ph < 1000
        t == ToPhase(s, r.ph)
    IN IF early /\ MergeFails(s) THEN R(s, FALSE, << "the run goes on after ranks wrote different things", s.ob >>)
       ELSE IF early /\ ~Counted(s) THEN R(s, FALSE, << "wrong results of initialize()", s.ob >>)
       ELSE IF r.ph < s.ph THEN R(s, FALSE, << "an earlier phase", r.ph, s.ph >>)
       ELSE IF r.d = 0 THEN R([t EXCEPT !.try[r.c] = << r >>], TRUE, <<>>)
       ELSE IF Fails(t, r) THEN R(t, FALSE, << "an operation that must fail returned", r >>)
       ELSE LET e == Exact(t, r) IN R([e.st EXCEPT !.try[r.c] = <<>>], e.ok, e.why)
INSTANCE Replay WITH Start <- St0, Step <- Do
=============================================================================

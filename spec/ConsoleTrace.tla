---------------------------- MODULE ConsoleTrace ----------------------------
(* Console sessions of the simulator. A session is the list of handler calls *)
(* (act), pauses and console commands; h.ref is the list of handler calls of *)
(* an undisturbed run of the same model.                                     *)
EXTENDS Console, TLC, Json, IOUtils
VARIABLES tr, l, st
Data == JsonDeserialize(IOEnv.VF_TRACES)

St0(h) == [vals |-> h.vals, ref |-> h.ref, ai |-> 0, pend |-> IF h.start < 0 THEN <<>> ELSE <<<<h.start, -1>>>>,
           ws |-> <<>>, due |-> <<>>, dk |-> "", now |-> 0, paused |-> FALSE, set |-> FALSE, over |-> FALSE]
R(s, ok, why) == [st |-> s, ok |-> ok, why |-> why]
Set(s) == {s[i] : i \in 1..Len(s)}
Drop(s, e) == LET i == CHOOSE i \in 1..Len(s) : s[i] = e IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
IsEv(k) == SubSeq(k, 1, 1) = "e"

Act(s, r) ==
  IF s.paused THEN R(s, FALSE, "something happened during a pause")
  ELSE IF s.over THEN R(s, FALSE, "something happened after the shutdown")
  ELSE IF r.t < s.now THEN R(s, FALSE, "time went backwards")
  ELSE IF s.ai = Len(s.ref) THEN R(s, FALSE, "more happened than in the undisturbed run")
  ELSE LET q == s.ref[s.ai + 1] IN
  IF <<r.t, r.c, r.o, r.k, r.r>> # <<q.t, q.c, q.o, q.k, q.r>> THEN R(s, FALSE, <<"the undisturbed run does something else here", q>>)
  ELSE IF ~s.set /\ (r.pre # q.pre \/ r.post # q.post) THEN R(s, FALSE, <<"values differ from those of the undisturbed run", q>>)
  ELSE IF r.pre # s.vals[r.o] THEN R(s, FALSE, <<"variables changed between two handler calls", s.vals[r.o]>>)
  ELSE IF \E p \in Set(s.pend) : p[1] <= r.t THEN R(s, FALSE, <<"the simulation should have paused before this", s.pend>>)
  \* all handlers of one clock tick belong to one activity
  ELSE IF s.due # <<>> /\ (s.now # r.t \/ s.dk # r.k \/ IsEv(r.k)) THEN R(s, FALSE, <<"the watchpoint should have paused before this", s.due>>)
  ELSE LET b == Look(s.ws, 1, r.c, IF IsEv(r.k) THEN "BE" ELSE "BC", r.t, s.vals, s.due)
           v == [s.vals EXCEPT ![r.o] = r.post]
           a == Look(b.ws, 1, r.c, IF IsEv(r.k) THEN "AE" ELSE "AC", r.t, v, b.due)
       IN R([s EXCEPT !.vals = v, !.ws = a.ws, !.due = a.due, !.dk = r.k, !.now = r.t, !.ai = @ + 1], TRUE, "")

Pause(s, r) ==
  IF s.paused \/ s.over THEN R(s, FALSE, "a pause during a pause")
  ELSE IF r.why = "wp"
  THEN IF s.due = <<>> THEN R(s, FALSE, "a watchpoint triggered although no condition holds")
       ELSE IF r.t # s.now THEN R(s, FALSE, <<"paused at the wrong time", s.now>>)
       ELSE IF s.due[Len(s.due)] # <<r.n + 1, r.h>> THEN R(s, FALSE, <<"another watchpoint triggered", s.due>>)
       ELSE R([s EXCEPT !.due = <<>>, !.paused = TRUE], TRUE, "")
  ELSE IF s.due # <<>> THEN R(s, FALSE, <<"the watchpoint should have paused first", s.due>>)
  ELSE IF <<r.t, r.n>> \notin Set(s.pend) THEN R(s, FALSE, <<"no pause was asked for at this time", s.pend>>)
  ELSE IF \E p \in Set(s.pend) : p[1] < r.t THEN R(s, FALSE, <<"an earlier pause was left out", s.pend>>)
  ELSE R([s EXCEPT !.pend = Drop(@, <<r.t, r.n>>), !.now = r.t, !.paused = TRUE], TRUE, "")

NewWatch(s, r) ==
  [on |-> TRUE, c |-> r.c, conds |-> r.conds, ops |-> r.ops, mask |-> {"BC", "AC", "BE", "AE"},
   was |-> [i \in 1..Len(r.conds) |-> s.vals[r.conds[i].lo][r.conds[i].li]],
   size |-> r.size, delay |-> r.delay, tv |-> r.tv, recs |-> <<>>, ph |-> "-", post |-> 0, again |-> FALSE, trig |-> <<>>]
Live(s, r) == r.n + 1 \in 1..Len(s.ws) /\ s.ws[r.n + 1].on
Rec(q) == <<q.h, q.t, q.s, q.v>>

Cmd(s, r) ==
  IF ~s.paused THEN R(s, FALSE, "a command while the simulation runs")
  ELSE CASE r.x = "go" -> R([s EXCEPT !.paused = FALSE], TRUE, "")
    [] r.x = "run" -> R([s EXCEPT !.paused = FALSE, !.pend = Append(@, <<s.now + r.n, r.n>>)], TRUE, "")
    [] r.x = "time" -> R(s, r.n = s.now, <<"wrong time", s.now>>)
    [] r.x = "print" -> R(s, r.v = s.vals[r.o][r.i], <<"wrong value", s.vals[r.o][r.i]>>)
    [] r.x = "set" -> R([s EXCEPT !.vals[r.o][r.i] = r.v, !.set = TRUE], TRUE, "")
    [] r.x = "watch" -> R([s EXCEPT !.ws = Append(@, NewWatch(s, r))], r.n = Len(s.ws), "wrong number")
    [] r.x = "unwatch" -> R([s EXCEPT !.ws = IF Live(s, r) THEN [@ EXCEPT ![r.n + 1].on = FALSE] ELSE @], TRUE, "")
    [] r.x = "clear" -> R([s EXCEPT !.ws = <<>>], TRUE, "")
    [] r.x = "exit" -> R([s EXCEPT !.ws = <<>>, !.paused = FALSE], TRUE, "")
    [] r.x = "mask" -> R([s EXCEPT !.ws = IF Live(s, r) /\ r.m # <<>> THEN [@ EXCEPT ![r.n + 1].mask = Set(r.m)] ELSE @], TRUE, "")
    [] r.x = "retrace" -> R([s EXCEPT !.ws = IF Live(s, r) THEN [@ EXCEPT ![r.n + 1] = [Clear(@) EXCEPT !.again = s.ws[r.n + 1].again]] ELSE @], TRUE, "")
    [] r.x = "trace" ->
         IF ~Live(s, r) THEN R(s, r.recs = <<>>, "records of a watchpoint that is not there")
         ELSE LET w == s.ws[r.n + 1] IN
              IF [i \in 1..Len(r.recs) |-> Rec(r.recs[i])] # [i \in 1..Len(w.recs) |-> Rec(w.recs[i])] THEN R(s, FALSE, <<"wrong samples", w.recs>>)
              ELSE IF r.trig # <<>> /\ w.trig # <<>> /\ w.trig[1] \in Set(w.recs) /\ (r.trig[1].t # w.trig[1].t \/ r.trig[1].v # w.trig[1].v)
                   THEN R(s, FALSE, <<"wrong trigger record", w.trig>>)
                   ELSE R(s, TRUE, "")
    [] r.x = "list" -> R(s, [i \in 1..Len(r.l) |-> <<r.l[i][1] + 1, {r.l[i][2][j] : j \in 1..Len(r.l[i][2])}>>] =
                             LET on == {i \in 1..Len(s.ws) : s.ws[i].on}
                                 nth(k) == CHOOSE i \in on : Cardinality({j \in on : j <= i}) = k
                             IN [k \in 1..Cardinality(on) |-> <<nth(k), s.ws[nth(k)].mask>>],
                            "wrong list of watchpoints")
    [] r.x = "shutdown" -> R([s EXCEPT !.paused = FALSE, !.over = TRUE], TRUE, "")
    [] r.x = "look" -> R(s, TRUE, "")
    [] OTHER -> R(s, FALSE, "unknown command")

Do(s, r) ==
  CASE r.x = "act" -> Act(s, r)
    [] r.x = "pause" -> Pause(s, r)
    [] r.x = "end" ->
         IF s.paused THEN R(s, FALSE, "ended during a pause")
         ELSE IF s.due # <<>> THEN R(s, FALSE, <<"the watchpoint should have paused before the end", s.due>>)
         ELSE IF ~s.over /\ s.ai # Len(s.ref) THEN R(s, FALSE, <<"less happened than in the undisturbed run", s.ref[s.ai + 1]>>)
         ELSE IF ~s.over /\ \E p \in Set(s.pend) : p[1] <= r.t THEN R(s, FALSE, <<"a pause was left out", s.pend>>)
         ELSE R(s, TRUE, "")
    [] OTHER -> Cmd(s, r)
INSTANCE Replay WITH Start <- St0, Step <- Do
=============================================================================

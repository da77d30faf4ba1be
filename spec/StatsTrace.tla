----------------------------- MODULE StatsTrace -----------------------------
(* One statistic of a real run: l are the calls made on it with their times,  *)
(* rows what the output file says.  The specification is taken through the    *)
(* calls and the phases between them; each output must be the next row.       *)
EXTENDS Stats, Json, IOUtils, TLC
VARIABLES tr, l, st
Data == JsonDeserialize(IOEnv.VF_TRACES)

St0(h) == [c |-> h.c, s |-> Fresh(h.c), now |-> 0, rows |-> h.rows]
R(s, ok, why) == [st |-> s, ok |-> ok, why |-> why]

Matches(rows, out) == Len(out) <= Len(rows) /\ \A i \in 1..Len(out) : rows[i].t = out[i][1] /\ rows[i].f = out[i][2]
(* outputs already matched are forgotten *)
Take(x, s) == [x EXCEPT !.s = [s EXCEPT !.out = <<>>], !.rows = SubSeq(@, Len(s.out) + 1, Len(@))]
Why(rows, out) ==
  LET i == CHOOSE k \in 1..Len(out) : (k > Len(rows) \/ rows[k].t # out[k][1] \/ rows[k].f # out[k][2])
                                      /\ \A m \in 1..(k - 1) : rows[m].t = out[m][1] /\ rows[m].f = out[m][2]
  IN << "expected output", out[i], "written", IF i > Len(rows) THEN "nothing more" ELSE ToString(<<rows[i].t, rows[i].f>>) >>
RECURSIVE Phases(_, _, _, _)
Phases(c, s, t, to) == IF t > to THEN s ELSE Phases(c, IF HasPhase(c, t) THEN Phase(c, s, t) ELSE s, t + 1, to)
Call(c, s, r) ==
  CASE r.op \in {"a", "n"} -> Add(c, s, r.t, r.v, IF r.op = "a" THEN 1 ELSE r.n)
    [] r.op = "e" -> [s EXCEPT !.en = TRUE]
    [] r.op = "d" -> [s EXCEPT !.en = FALSE]
    [] r.op = "o" -> Write(c, s, r.t)
    [] r.op = "c" -> Empty(s)
    [] r.op = "f" -> [s EXCEPT !.fin = r.v = 1]
    [] r.op = "r" -> [s EXCEPT !.rst = r.v = 1]
Do(x, r) ==
  IF r.op = "end"
  THEN LET s == Final(x.c, Phases(x.c, x.s, x.now, r.ph), r.t) IN
       IF ~Matches(x.rows, s.out) THEN R(x, FALSE, Why(x.rows, s.out))
       ELSE IF Len(x.rows) > Len(s.out) THEN R(x, FALSE, << "written once more than due", x.rows[Len(s.out) + 1] >>)
       ELSE R(Take(x, s), TRUE, "")
  ELSE LET a == Phases(x.c, x.s, x.now, r.t - 1)
           s == Call(x.c, a, r) IN
       IF ~Matches(x.rows, s.out) THEN R(x, FALSE, Why(x.rows, s.out))
       ELSE R([Take(x, s) EXCEPT !.now = r.t], TRUE, "")
INSTANCE Replay WITH Start <- St0, Step <- Do
=============================================================================

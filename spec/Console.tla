------------------------------ MODULE Console ------------------------------
(* The debug console: pauses, watchpoints and traces over the variables of   *)
(* components. Variables are integers; vals[o][i] is variable i of part o.   *)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Last(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

\* a condition compares a variable with a variable or a constant, or asks whether it has changed since it was last looked at
Rhs(c, vals) == IF c.ro = "" THEN c.rv ELSE vals[c.ro][c.ri]
Holds(c, was, vals) ==
  LET x == vals[c.lo][c.li]
      y == Rhs(c, vals) IN
  CASE c.op = "<" -> x < y
    [] c.op = "<=" -> x <= y
    [] c.op = ">" -> x > y
    [] c.op = ">=" -> x >= y
    [] c.op = "==" -> x = y
    [] c.op = "!=" -> x # y
    [] c.op = "changed" -> x # was
    [] OTHER -> FALSE
\* conditions are joined from left to right
RECURSIVE Join(_, _, _, _)
Join(b, ops, res, i) ==
  IF i > Len(ops) THEN b
  ELSE Join(IF ops[i] = "&&" THEN b /\ res[i + 1] ELSE b \/ res[i + 1], ops, res, i + 1)
Fires(w, vals) ==
  LET res == [i \in 1..Len(w.conds) |-> Holds(w.conds[i], w.was[i], vals)] IN Join(res[1], w.ops, res, 1)
Seen(w, vals) == [w EXCEPT !.was = [i \in 1..Len(w.conds) |-> vals[w.conds[i].lo][w.conds[i].li]]]

\* a watchpoint without a trace acts whenever its condition holds. One with a trace records samples, acts a given number of samples
\* after the first one at which the condition holds, and starts over once the console has been left again.
Plain(w) == w.size = 0
Clear(w) == [w EXCEPT !.recs = <<>>, !.ph = "-", !.post = 0, !.again = FALSE, !.trig = <<>>]
Sample(w0, h, t, vals, pausing) ==
  LET fires == Fires(w0, vals)
      w1 == Seen(w0, vals) IN
  IF Plain(w0) THEN [w |-> w1, acts |-> fires]
  ELSE LET w2 == IF w1.again /\ ~pausing THEN Clear(w1) ELSE w1
           ph == IF w2.ph \in {"!", "+"} THEN "+" ELSE IF fires THEN "!" ELSE "-"
           full == ph = "+" /\ w2.post >= w2.delay
           rec == [h |-> h, t |-> t, s |-> ph, v |-> [j \in 1..Len(w2.tv) |-> vals[w2.tv[j][1]][w2.tv[j][2]]]]
           post == IF ph = "+" THEN w2.post + 1 ELSE w2.post
           acts == (ph = "!" /\ w2.delay = 0) \/ (ph = "+" /\ post >= w2.delay)
       IN [w |-> [w2 EXCEPT !.ph = ph, !.post = post, !.again = w2.again \/ acts,
                            !.recs = IF full THEN @ ELSE Last(Append(@, rec), w2.size),
                            !.trig = IF ~full /\ fires THEN <<rec>> ELSE @],
           acts |-> acts]

\* all watchpoints of the component whose handler is called; w.mask: the places at which one is looked at
RECURSIVE Look(_, _, _, _, _, _, _)
Look(ws, i, c, h, t, vals, due) ==     \* due: the watchpoints that have acted, latest last
  IF i > Len(ws) THEN [ws |-> ws, due |-> due]
  ELSE IF ws[i].on /\ ws[i].c = c /\ h \in ws[i].mask
       THEN LET x == Sample(ws[i], h, t, vals, due # <<>>) IN
            Look([ws EXCEPT ![i] = x.w], i + 1, c, h, t, vals, IF x.acts THEN Append(due, <<i, h>>) ELSE due)
       ELSE Look(ws, i + 1, c, h, t, vals, due)
=============================================================================

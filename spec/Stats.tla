-------------------------------- MODULE Stats --------------------------------
(* One statistic: data is the sequence of additions <<value, times>> since it *)
(* was last emptied; whatever is reported is a function of data alone.  A     *)
(* configuration c says how it reports (type), when it collects (start, stop) *)
(* and when it writes (period, or after limit additions).                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Sum(data, F(_)) == FoldLeft(LAMBDA a, d : a + d[2] * F(d[1]), 0, data)
Values(data) == { d[1] : d \in { e \in Range(data) : e[2] > 0 } }
Count(data) == Sum(data, LAMBDA v : 1)

(* what is reported *)
Accumulator(data) ==
  << Sum(data, LAMBDA v : v), Sum(data, LAMBDA v : v * v), Count(data),
     IF Values(data) = {} THEN 0 ELSE Min(Values(data)), IF Values(data) = {} THEN 0 ELSE Max(Values(data)) >>
(* bins of width w from minv on; one is the smallest distance of the upper end of a bin to the next bin *)
Top(c) == c.minv + c.width * c.nbins - c.one
InRange(c, v) == v >= c.minv /\ v <= Top(c)
Bin(c, v) == (v - c.minv) \div c.width
InBin(c, data, b) == Sum(data, LAMBDA v : IF InRange(c, v) /\ Bin(c, v) = b THEN 1 ELSE 0)
Binned(c, data) == SelectSeq(data, LAMBDA d : InRange(c, d[1]))
Histogram(c, data) ==
  LET in == Binned(c, data) IN
  << c.minv, Top(c), c.width, c.nbins,
     Sum(in, LAMBDA v : v), Sum(in, LAMBDA v : v * v),
     Cardinality({ Bin(c, v) : v \in Values(in) }), Count(data), Count(in) >>
  \o (IF c.oob = 1 THEN << Sum(data, LAMBDA v : IF v < c.minv THEN 1 ELSE 0), Sum(data, LAMBDA v : IF v > Top(c) THEN 1 ELSE 0) >> ELSE <<>>)
  \o (IF c.dump = 1 THEN [b \in 1..c.nbins |-> InBin(c, data, b - 1)] ELSE <<>>)
Report(c, data) == CASE c.type = "acc" -> Accumulator(data)
                     [] c.type = "hist" -> Histogram(c, data)
                     [] OTHER -> << Cardinality(Values(data)) >>

(* the statistic: en it collects, oc additions since the last output, fin written at the end,
   rst emptied by outputs, out the sequence of outputs <<time, report>> *)
Fresh(c) == [data |-> <<>>, en |-> c.start = 0, oc |-> 0, fin |-> TRUE, rst |-> c.reset = 1, out |-> <<>>]
Empty(s) == [s EXCEPT !.data = <<>>]
Write(c, s, t) ==
  LET w == [s EXCEPT !.out = Append(@, << t, Report(c, s.data) >>), !.oc = 0] IN
  IF s.rst THEN Empty(w) ELSE w
Add(c, s, t, v, n) ==
  IF ~s.en THEN s
  ELSE LET a == [s EXCEPT !.data = Append(@, <<v, n>>), !.oc = @ + n] IN
       IF c.limit > 0 /\ a.oc >= c.limit THEN Write(c, a, t) ELSE a
(* what happens at time t after all events of that time *)
Phase(c, s, t) ==
  LET w == IF c.period > 0 /\ t % c.period = 0 THEN Write(c, s, t) ELSE s IN
  [w EXCEPT !.en = IF t = c.stop THEN FALSE ELSE IF t = c.start THEN TRUE ELSE @]
HasPhase(c, t) == t > 0 /\ ((c.period > 0 /\ t % c.period = 0) \/ t = c.start \/ t = c.stop)
Final(c, s, t) == IF s.fin THEN [s EXCEPT !.out = Append(@, << t, Report(c, s.data) >>)] ELSE s
=============================================================================

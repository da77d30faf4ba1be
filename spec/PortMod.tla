------------------------------ MODULE PortMod ------------------------------
(* Port modules: the modules of a port act in configuration order on every    *)
(* event sent there (those installed for sending) or about to be delivered    *)
(* there (those installed for receiving).  Module n acts on the i-th event it *)
(* sees by the i-th letter of its plan: p(ass), m(odify), x (replace),        *)
(* c(ancel); kind "d" is a module that drops with probability pr percent.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Letter(m, i) == m.plan[(i % Len(m.plan)) + 1]
Out(m, i, v) == IF Letter(m, i) \in {"m", "x"} THEN v + m.add ELSE v
Side(m, side) == IF side = "s" THEN m.send = 1 ELSE m.recv = 1

(* What happens to an event with value v at the modules ids: a list of things *)
(* that must follow, in this order.  n[m]: how many events module m has seen. *)
RECURSIVE Pipe(_, _, _, _, _, _)
Pipe(mods, n, ids, side, v, last) ==
  IF ids = <<>> THEN << [last EXCEPT !.v = v] >>
  ELSE LET k == Head(ids)
           m == mods[k] IN
    IF ~Side(m, side) THEN Pipe(mods, n, Tail(ids), side, v, last)
    ELSE IF m.kind = "d" THEN
      IF m.pr = 100 THEN <<>>
      ELSE IF m.pr = 0 THEN Pipe(mods, n, Tail(ids), side, v, last)
      ELSE << [x |-> "maybe", m |-> 0, v |-> 0, d |-> "", t |-> 0] >> \o Pipe(mods, n, Tail(ids), side, v, last)
    ELSE << [x |-> "mod", m |-> k, v |-> v, d |-> Letter(m, n[k]), t |-> 0] >>
         \o IF Letter(m, n[k]) = "c" THEN <<>> ELSE Pipe(mods, n, Tail(ids), side, Out(m, n[k], v), last)

(* fly[p]: events under way to port p, [t, q, v]: arrival time, number, value *)
First(S) == CHOOSE e \in S : \A f \in S : e.t < f.t \/ (e.t = f.t /\ e.q <= f.q)
=============================================================================

----------------------------- MODULE MCSubcomp ------------------------------
(* All orders in which the nodes of a small tree ask for a port, for all     *)
(* sharing flags and all places of links of that name; and all settings of   *)
(* statistics on that tree.                                                  *)
(*   1 - 2 - 3,  2 - 4,  1 - 5                                               *)
EXTENDS Subcomp
CONSTANTS SeesConfigured,  \* FALSE: a link is handed down although it is configured
          AsksParent       \* FALSE: only the flag of the asking node counts
Par == <<0, 1, 2, 2, 1>>
N == 1..5
nd == [n \in N |-> [kind |-> IF n = 1 THEN "comp" ELSE "user", parent |-> Par[n], type |-> "T"]]
VARIABLES own, orig, cf, fl, last
vars == <<own, orig, cf, fl, last>>
Ends == 1..2
pn == [e \in Ends |-> "h"]
Init ==
  /\ orig \in [Ends -> {1, 2, 3}] /\ orig[1] < orig[2]
  /\ own = orig
  /\ fl \in {f \in [N -> {0, 1}] : f[1] = 0}
  /\ cf = [e \in Ends |-> 0]
  /\ last = [n |-> 0, e |-> 0, free |-> {}]
Anc(m, n) == \/ m = n \/ Par[n] = m \/ (Par[n] # 0 /\ Par[Par[n]] = m)
Between(m, n) == {k \in N : k # m /\ Anc(m, k) /\ Anc(k, n)}     \* n included, m not
Granted(m, n) == Anc(m, n) /\ \A k \in Between(m, n) : fl[k] = 1
\* the algorithm as it is in the code
RECURSIVE FromParent(_, _)
FromParent(m, depth) ==
  LET E == {e \in Ends : own[e] = m /\ (cf[e] = 0 \/ ~SeesConfigured)} IN
  IF E # {} THEN CHOOSE e \in E : TRUE
  ELSE IF m # 1 /\ (fl[m] = 1 \/ ~AsksParent) THEN FromParent(Par[m], depth + 1) ELSE 0
Ask(n) ==
  LET mine == {e \in Ends : own[e] = n}
      e == IF mine # {} THEN CHOOSE x \in mine : TRUE ELSE IF n # 1 /\ fl[n] = 1 THEN FromParent(Par[n], 1) ELSE 0
  IN /\ \A x \in Ends : cf[x] # n
     /\ last' = [n |-> n, e |-> e, free |-> {x \in Ends : cf[x] = 0 /\ (own[x] = n \/ Granted(own[x], n))}]
     /\ IF e = 0 THEN UNCHANGED <<own, cf>> ELSE own' = [own EXCEPT ![e] = n] /\ cf' = [cf EXCEPT ![e] = n]
     /\ UNCHANGED <<orig, fl>>
Next == \E n \in N : Ask(n)
Spec == Init /\ [][Next]_vars
OnlyGranted == \A e \in Ends : cf[e] # 0 => own[e] = cf[e] /\ Granted(orig[e], cf[e])
ConfiguredOnce == [][\A e \in Ends : cf[e] # 0 => cf'[e] = cf[e] /\ own'[e] = own[e]]_vars
NothingWithheld == last.n # 0 => (last.e = 0) = (last.free = {})
Refines == last.n # 0 => last.e \in last.free \cup {0}
AsSpecified == \A n \in N : (\A x \in Ends : cf[x] # n) =>
  Take(nd, pn, own, cf, fl, n, "h") = (LET mine == {e \in Ends : own[e] = n} IN
    IF mine # {} THEN CHOOSE x \in mine : TRUE ELSE IF n # 1 /\ fl[n] = 1 THEN FromParent(Par[n], 1) ELSE 0)
=============================================================================

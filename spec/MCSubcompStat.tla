--------------------------- MODULE MCSubcompStat ----------------------------
(* All settings of one statistic on a chain 1 - 2 - 3: who declares it, who  *)
(* names it, who enables all with which level, and all flags.                *)
EXTENDS Subcomp
VARIABLES fl, dec, nam, all, lv
vars == <<fl, dec, nam, all, lv>>
N == 1..3
lev == [t \in {"T1", "T2", "T3"} |-> LET n == IF t = "T1" THEN 1 ELSE IF t = "T2" THEN 2 ELSE 3 IN
         [x \in (IF dec[n] THEN {"s"} ELSE {}) |-> 2]]
nd == [n \in N |-> [kind |-> IF n = 1 THEN "comp" ELSE "user", parent |-> n - 1, type |-> "T" \o ToString(n),
                    stats |-> [x \in (IF nam[n] THEN {"s"} ELSE {}) |-> n], all |-> all[n], level |-> lv[n], tok |-> n]]
sc == [i \in N |-> [shared |-> FALSE, name |-> "", tok |-> i]]
Init ==
  /\ fl \in {f \in [N -> {0, 2, 4, 6}] : f[1] = 0}
  /\ dec \in [N -> BOOLEAN] /\ nam \in [N -> BOOLEAN] /\ all \in [N -> BOOLEAN]
  /\ lv \in [N -> {1, 3}]
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
S(n) == Stat(nd, fl, lev, sc, n, "s", "")
\* declared by d: n or the nearest above reached through shared statistics
DecOK(n, d) == d <= n /\ dec[d] /\ \A k \in (d + 1)..n : ~dec[k] /\ fl[k] \in {2, 6}
\* enabled by m: d or the nearest above reached through the right to insert
EnOK(d, m) == m <= d /\ (nam[m] \/ all[m]) /\ \A k \in (m + 1)..d : ~nam[k] /\ ~all[k] /\ fl[k] \in {4, 6}
Right == \A n \in N : LET x == S(n) IN
  IF \E d \in N, m \in N : DecOK(n, d) /\ EnOK(d, m) /\ (nam[m] \/ lv[m] >= 2)
  THEN LET p == CHOOSE p \in N \X N : DecOK(n, p[1]) /\ EnOK(p[1], p[2]) IN
       x.tok = p[2] /\ x.owner = (IF nam[p[2]] THEN 1 ELSE p[2])
  ELSE x = NoStat
=============================================================================

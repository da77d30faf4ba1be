---------------------------- MODULE MCPartition ----------------------------
(* The partitioners as algorithms over the graph collapsed along the links   *)
(* that must not be cut; the placements they reach are judged by Partition.  *)
EXTENDS Partition, TLC
CONSTANTS N, Rs, Ts, Kinds,
          BothEnds,      \* a no-cut link is followed from either end
          Remainder      \* the linear partitioner deals out the remainder
VARIABLES n, E, R, T, kind, pc, seen, groups, todo, cur, q, part, left, cnt, work
vars == <<n, E, R, T, kind, pc, seen, groups, todo, cur, q, part, left, cnt, work>>

Init ==
  /\ n \in 1..N /\ E \in SUBSET {e \in (1..n) \X (1..n) : e[1] # e[2] /\ (e[1] < e[2] \/ e[2] = 1)}
  /\ Cardinality(E) <= 3
  /\ R \in Rs /\ T \in Ts /\ kind \in Kinds
  /\ pc = "scan" /\ seen = {} /\ groups = <<>> /\ todo = {} /\ cur = {} /\ q = <<>>
  /\ part = 0 /\ left = 0 /\ cnt = 0 /\ work = {}

\* collapse: take the next component not seen, follow its no-cut links
Scan ==
  /\ pc = "scan" /\ todo = {} /\ cur = {}
  /\ IF seen = 1..n THEN /\ pc' = "place" /\ left' = Len(groups) % (R * T) /\ UNCHANGED <<seen, todo, cur, groups>>
     ELSE LET c == MinOf((1..n) \ seen) IN todo' = {c} /\ UNCHANGED <<pc, left, seen, cur, groups>>
  /\ UNCHANGED <<n, E, R, T, kind, q, part, cnt, work>>
Follow ==
  /\ pc = "scan" /\ todo # {}
  /\ \E c \in todo :
       /\ cur' = cur \cup {c} /\ seen' = seen \cup {c}
       /\ todo' = (todo \cup {d \in 1..n : <<c, d>> \in E \/ (BothEnds /\ <<d, c>> \in E)}) \ (cur \cup {c})
  /\ UNCHANGED <<n, E, R, T, kind, pc, groups, q, part, left, cnt, work>>
Close ==
  /\ pc = "scan" /\ todo = {} /\ cur # {}
  /\ groups' = Append(groups, cur) /\ cur' = {}
  /\ UNCHANGED <<n, E, R, T, kind, pc, seen, todo, q, part, left, cnt, work>>

At(k) == <<k \div T, k % T>>
P == R * T
G == Len(groups)
\* linear: a counter per block, the remainder goes to the first blocks
Linear ==
  /\ kind = "linear"
  /\ IF Len(q) = G THEN pc' = "done" /\ UNCHANGED <<q, part, left, cnt>>
     ELSE LET per == G \div P
              full == cnt + 1 >= per
              extra == full /\ per > 0 /\ Remainder /\ left > 0
          IN /\ q' = q \o (IF extra THEN <<At(part), At(part)>> ELSE <<At(part)>>)
             /\ left' = IF extra THEN left - 1 ELSE left
             /\ part' = IF full THEN part + 1 ELSE part
             /\ cnt' = IF full THEN 0 ELSE cnt + 1
             /\ UNCHANGED pc
  /\ UNCHANGED work
Robin ==
  /\ kind = "roundrobin"
  /\ IF Len(q) = G THEN pc' = "done" /\ UNCHANGED <<q, part>>
     ELSE q' = Append(q, <<part % R, (part \div R) % T>>) /\ part' = part + 1 /\ UNCHANGED pc
  /\ UNCHANGED <<left, cnt, work>>
\* simple: sets are split in halves that exchange members; work: sets with their partition number and step
Pow(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 2 ELSE IF k = 2 THEN 4 ELSE 8
Halves(S) == {H \in SUBSET S : Cardinality(H) = (Cardinality(S) + 1) \div 2}
Simple ==
  /\ kind = "simple"
  /\ IF q = <<>> /\ work = {} THEN
       /\ q' = [i \in 1..G |-> At(0)]
       /\ \E H \in Halves(1..G) : work' = IF P = 1 THEN {<<{}, 0, 9>>} ELSE {<<H, 0, 1>>, <<(1..G) \ H, 1, 1>>}
       /\ UNCHANGED pc
     ELSE IF work = {} \/ P = 1 THEN pc' = "done" /\ UNCHANGED <<q, work>>
     ELSE LET w == CHOOSE x \in work : TRUE IN
          /\ q' = [i \in 1..G |-> IF i \in w[1] THEN At(w[2]) ELSE q[i]]
          /\ IF w[2] + Pow(w[3]) < P
             THEN \E H \in Halves(w[1]) : work' = (work \ {w}) \cup {<<H, w[2], w[3] + 1>>, <<w[1] \ H, w[2] + Pow(w[3]), w[3] + 1>>}
             ELSE work' = work \ {w}
          /\ UNCHANGED pc
  /\ UNCHANGED <<part, left, cnt>>
Place == pc = "place" /\ (Linear \/ Robin \/ Simple) /\ UNCHANGED <<n, E, R, T, kind, seen, groups, todo, cur>>

Next == Scan \/ Follow \/ Close \/ Place
Spec == Init /\ [][Next]_vars

Home == [c \in 1..n |-> q[CHOOSE i \in 1..G : c \in groups[i]]]
Right == pc = "done" => Good(kind, n, E, R, T, <<>>, Home).ok
Grouped == pc # "scan" => {groups[i] : i \in 1..G} = {{i \in 1..n : Leader(n, E)[i] = h} : h \in Heads(n, E)}
=============================================================================

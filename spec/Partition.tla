----------------------------- MODULE Partition -----------------------------
(* Placement of components 1..n (in the order of their creation) on the      *)
(* partitions (rank, thread).  E is the set of pairs of components joined by *)
(* a link that must not be cut.                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Parts(R, T) == (0..R-1) \X (0..T-1)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

\* the smallest component of the group of each component
RECURSIVE Spread(_, _)
Spread(f, E) ==
  LET g == [i \in DOMAIN f |-> MinOf({f[i]} \cup {f[j] : j \in {k \in DOMAIN f : <<i, k>> \in E \/ <<k, i>> \in E}})]
  IN IF g = f THEN f ELSE Spread(g, E)
Leader(n, E) == Spread([i \in 1..n |-> i], E)
\* groups, ordered by their smallest component
Heads(n, E) == {Leader(n, E)[i] : i \in 1..n}
SortSet(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

Pos(p, T) == p[1] * T + p[2]                     \* position of a partition in the order of ranks and threads

\* what every placement has to respect; pl: component -> partition
Valid(n, R, T, pl) == DOMAIN pl = 1..n /\ \A i \in 1..n : pl[i] \in Parts(R, T)
Together(E, pl)    == \A e \in E : pl[e[1]][1] = pl[e[2]][1]

\* q: partitions of the groups in order
Loads(q, R, T)     == [p \in Parts(R, T) |-> Cardinality({i \in 1..Len(q) : q[i] = p})]
Balanced(q, R, T)  == LET f == Loads(q, R, T) IN \A a, b \in Parts(R, T) : f[a] - f[b] <= 1
Contiguous(q, T)   == \A i \in 1..Len(q)-1 : Pos(q[i], T) <= Pos(q[i+1], T)
Cyclic(q, R, T)    == LET P == R * T IN
                      /\ \A i \in 1..Len(q)-P : q[i+P] = q[i]
                      /\ \A i, j \in 1..Len(q) : i < j /\ j < i + P => q[i] # q[j]
PowerOf2(k)        == k \in {1, 2, 4, 8, 16, 32}

Good(kind, n, E, R, T, user, pl) ==
  LET gs(S) == [i \in DOMAIN S |-> pl[S[i]]] IN
  IF ~Valid(n, R, T, pl) THEN [ok |-> FALSE, why |-> "a component is in no partition that was asked for"]
  ELSE IF kind = "self" THEN [ok |-> \A i \in 1..n : pl[i] = user[i], why |-> "the placement given by the user was changed"]
  ELSE IF kind = "single" THEN [ok |-> Cardinality({pl[i] : i \in 1..n}) <= 1, why |-> "more than one partition is used"]
  ELSE IF ~Together(E, pl) THEN [ok |-> FALSE, why |-> "a link marked as not to be cut is cut"]
  ELSE LET q == gs(SortSet(Heads(n, E))) IN
       CASE kind = "linear"   -> [ok |-> Contiguous(q, T) /\ Balanced(q, R, T), why |-> "not contiguous balanced blocks"]
         [] kind = "roundrobin" -> [ok |-> Cyclic(q, R, T), why |-> "not dealt out cyclically"]
         [] kind = "simple"   -> [ok |-> PowerOf2(R * T) => Balanced(q, R, T), why |-> "the partitions are not balanced"]
         [] OTHER -> [ok |-> TRUE, why |-> ""]
=============================================================================

------------------------------- MODULE Heap -------------------------------
(* Object graphs: a root and a sequence of nodes [k, e], k the kind and values *)
(* of the object and e the targets of its references in order, 0 for none.     *)
EXTENDS Naturals, Sequences, FiniteSets

\* Pairs of corresponding nodes, found by following corresponding references
RECURSIVE Grow(_, _, _, _)
Grow(a, b, done, todo) ==
  IF todo = {} THEN done
  ELSE LET new == UNION { { <<a.n[p[1]].e[i], b.n[p[2]].e[i]>> :
                              i \in DOMAIN a.n[p[1]].e \cap DOMAIN b.n[p[2]].e }
                          : p \in { q \in todo : q[1] # 0 /\ q[2] # 0 } }
           all == done \cup todo
       IN Grow(a, b, all, new \ all)

Pairs(a, b) == Grow(a, b, {}, {<<a.root, b.root>>})

\* The graphs reachable from the two roots are the same up to the identity of the nodes
Same(a, b) ==
  LET ps == Pairs(a, b) IN
  /\ \A p \in ps : (p[1] = 0) = (p[2] = 0)
  /\ \A p \in ps : p[1] # 0 =>
       /\ a.n[p[1]].k = b.n[p[2]].k
       /\ Len(a.n[p[1]].e) = Len(b.n[p[2]].e)
  /\ Cardinality({ p[1] : p \in ps }) = Cardinality(ps)
  /\ Cardinality({ p[2] : p \in ps }) = Cardinality(ps)
=============================================================================

--------------------------- MODULE MCUnboundedQueue ---------------------------
(* The unbounded queue: a linked list with a dummy head; producers exclude    *)
(* each other, consumers exclude each other, but not one the other.           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Producers, Consumers, PerProducer, ProducersExclude, ConsumersExclude
VARIABLES next, data, freed, first, last, plock, clock, pc, node, sent, got, bad
vars == <<next, data, freed, first, last, plock, clock, pc, node, sent, got, bad>>
T == Producers \cup Consumers
Init == /\ next = [n \in {0} |-> -1] /\ data = [n \in {0} |-> <<>>] /\ freed = {} /\ first = 0 /\ last = 0
        /\ plock = 0 /\ clock = 0 /\ pc = [t \in T |-> "idle"] /\ node = [t \in T |-> <<0, -1>>]
        /\ sent = [p \in Producers |-> 0] /\ got = <<>> /\ bad = FALSE
go(t, l) == pc' = [pc EXCEPT ![t] = l]
More(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
New(p) == /\ pc[p] = "idle" /\ sent[p] < PerProducer
          /\ LET n == Cardinality(DOMAIN next) IN
             next' = More(next, n, -1) /\ data' = More(data, n, <<p, sent[p] + 1>>) /\ node' = [node EXCEPT ![p] = <<n, -1>>]
          /\ sent' = [sent EXCEPT ![p] = @ + 1] /\ go(p, "lock") /\ UNCHANGED <<freed, first, last, plock, clock, got, bad>>
PLock(p) == pc[p] = "lock" /\ (plock = 0 \/ ~ProducersExclude) /\ plock' = p /\ go(p, "link") /\ UNCHANGED <<next, data, freed, first, last, clock, node, sent, got, bad>>
Link(p) == pc[p] = "link" /\ next' = [next EXCEPT ![last] = node[p][1]] /\ bad' = (bad \/ last \in freed) /\ go(p, "swing")
           /\ UNCHANGED <<data, freed, first, last, plock, clock, node, sent, got>>
Swing(p) == pc[p] = "swing" /\ last' = node[p][1] /\ plock' = 0 /\ go(p, "idle") /\ UNCHANGED <<next, data, freed, first, clock, node, sent, got, bad>>
CLock(c) == pc[c] = "idle" /\ (clock = 0 \/ ~ConsumersExclude) /\ clock' = c /\ go(c, "see") /\ UNCHANGED <<next, data, freed, first, last, plock, node, sent, got, bad>>
See(c) == /\ pc[c] = "see" /\ node' = [node EXCEPT ![c] = <<first, next[first]>>] /\ bad' = (bad \/ first \in freed)
          /\ (IF next[first] = -1 THEN go(c, "idle") /\ clock' = 0 ELSE go(c, "take") /\ UNCHANGED clock)
          /\ UNCHANGED <<next, data, freed, first, last, plock, sent, got>>
Take(c) == pc[c] = "take" /\ got' = Append(got, data[node[c][2]]) /\ first' = node[c][2] /\ bad' = (bad \/ node[c][2] \in freed) /\ go(c, "free")
           /\ UNCHANGED <<next, data, freed, last, plock, clock, node, sent>>
Free(c) == pc[c] = "free" /\ freed' = freed \cup {node[c][1]} /\ bad' = (bad \/ node[c][1] \in freed) /\ clock' = 0 /\ go(c, "idle")
           /\ UNCHANGED <<next, data, first, last, plock, node, sent, got>>
Next == (\E p \in Producers : New(p) \/ PLock(p) \/ Link(p) \/ Swing(p)) \/ (\E c \in Consumers : CLock(c) \/ See(c) \/ Take(c) \/ Free(c))
Spec == Init /\ [][Next]_vars
Safe == ~bad                                                         \* no access to a freed node
Once == \A i, j \in 1..Len(got) : i # j => got[i] # got[j]
InOrder == \A i, j \in 1..Len(got) : i < j /\ got[i][1] = got[j][1] => got[i][2] < got[j][2]
RECURSIVE Count(_)
Count(n) == IF next[n] = -1 THEN 0 ELSE 1 + Count(next[n])
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN sent[p] + Total(S \ {p})
NoneLost == (\A t \in T : pc[t] = "idle") => Total(Producers) = Len(got) + Count(first)
===============================================================================

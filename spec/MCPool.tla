-------------------------------- MODULE MCPool --------------------------------
(* The pool as implemented: per thread a free list as long as the blocks of   *)
(* the thread's arenas, an overflow list that goes to a store shared by all   *)
(* threads when it is full, and the arenas.  Refines Pool: what is handed out *)
(* is never live, and the counters agree.                                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, PerArena, MaxArenas
VARIABLES free, over, store, maxFree, live, made, allocs, frees
vars == <<free, over, store, maxFree, live, made, allocs, frees>>
Init == /\ free = [t \in Threads |-> {}] /\ over = [t \in Threads |-> {}] /\ store = {} /\ maxFree = [t \in Threads |-> 0]
        /\ live = {} /\ made = 0 /\ allocs = [t \in Threads |-> 0] /\ frees = [t \in Threads |-> 0]
Give(t, b) == live' = live \cup {b} /\ allocs' = [allocs EXCEPT ![t] = @ + 1] /\ UNCHANGED frees
Pick(S) == CHOOSE x \in S : TRUE
Alloc(t) ==
  CASE free[t] # {} -> LET b == Pick(free[t]) IN Give(t, b) /\ free' = [free EXCEPT ![t] = @ \ {b}] /\ UNCHANGED <<over, store, maxFree, made>>
    [] free[t] = {} /\ over[t] # {} -> LET b == Pick(over[t]) IN Give(t, b) /\ over' = [over EXCEPT ![t] = @ \ {b}] /\ UNCHANGED <<free, store, maxFree, made>>
    [] free[t] = {} /\ over[t] = {} /\ store # {} ->
         \E L \in store : LET b == Pick(L) IN Give(t, b) /\ over' = [over EXCEPT ![t] = L \ {b}] /\ store' = store \ {L} /\ UNCHANGED <<free, maxFree, made>>
    [] OTHER -> /\ made < MaxArenas * PerArena
                /\ LET n == (made + 1)..(made + PerArena)  b == Pick(n) IN
                   Give(t, b) /\ free' = [free EXCEPT ![t] = n \ {b}]
                /\ made' = made + PerArena /\ maxFree' = [maxFree EXCEPT ![t] = @ + PerArena] /\ UNCHANGED <<over, store>>
Return(t) == \E b \in live :
  /\ live' = live \ {b} /\ frees' = [frees EXCEPT ![t] = @ + 1] /\ UNCHANGED <<allocs, made, maxFree>>
  /\ IF Cardinality(free[t]) >= maxFree[t]
     THEN LET o == over[t] \cup {b} IN
          /\ UNCHANGED free
          /\ IF Cardinality(o) = PerArena THEN store' = store \cup {o} /\ over' = [over EXCEPT ![t] = {}]
             ELSE over' = [over EXCEPT ![t] = o] /\ UNCHANGED store
     ELSE free' = [free EXCEPT ![t] = @ \cup {b}] /\ UNCHANGED <<over, store>>
Bounded == \A t \in Threads : allocs[t] < 5
Next == \E t \in Threads : (Bounded /\ Alloc(t)) \/ Return(t)
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET t == CHOOSE x \in S : TRUE IN f[t] + Sum(f, S \ {t})
(* every block made is at exactly one place *)
Card(f) == [t \in Threads |-> Cardinality(f[t])]
Partition == /\ Cardinality(live) + Sum(Card(free), Threads) + Sum(Card(over), Threads) + Cardinality(UNION store) = made
             /\ live \cup UNION {free[t] : t \in Threads} \cup UNION {over[t] : t \in Threads} \cup UNION store = 1..made
Count == Sum(allocs, Threads) - Sum(frees, Threads) = Cardinality(live)
===============================================================================

---------------------------- MODULE MCBoundedQueue ----------------------------
(* The bounded queue at the level of its single accesses to shared memory:    *)
(* every thread repeatedly tries to put or to take.  Positions are claimed by *)
(* advancing w (r); the sequence number of the cell of position p says whether*)
(* it is free for p (Free(p)) or holds the item of p (Full(p)).               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Cap, MaxPut, Doubled
VARIABLES w, r, seq, dat, pc, pos, s, item, put, got, dup
vars == <<w, r, seq, dat, pc, pos, s, item, put, got, dup>>
Free(p) == IF Doubled THEN 2 * p ELSE p
Full(p) == IF Doubled THEN 2 * p + 1 ELSE p + 1
Init == /\ w = 0 /\ r = 0 /\ seq = [i \in 0..(Cap-1) |-> Free(i)] /\ dat = [i \in 0..(Cap-1) |-> 0]
        /\ pc = [t \in Threads |-> "idle"] /\ pos = [t \in Threads |-> 0] /\ s = [t \in Threads |-> 0]
        /\ item = [t \in Threads |-> 0] /\ put = 0 /\ got = <<>> /\ dup = FALSE
go(t, l) == pc' = [pc EXCEPT ![t] = l]
StartPut(t) == pc[t] = "idle" /\ put < MaxPut /\ put' = put + 1 /\ item' = [item EXCEPT ![t] = put + 1] /\ pos' = [pos EXCEPT ![t] = w]
               /\ go(t, "pseq") /\ UNCHANGED <<w, r, seq, dat, s, got, dup>>
PutSeq(t) == pc[t] = "pseq" /\ s' = [s EXCEPT ![t] = seq[pos[t] % Cap]] /\ go(t, "pcmp") /\ UNCHANGED <<w, r, seq, dat, pos, item, put, got, dup>>
PutCmp(t) == /\ pc[t] = "pcmp"
             /\ IF s[t] = Free(pos[t])
                THEN IF w = pos[t] THEN w' = w + 1 /\ go(t, "pdat") /\ UNCHANGED pos
                     ELSE pos' = [pos EXCEPT ![t] = w] /\ go(t, "pseq") /\ UNCHANGED w
                ELSE IF s[t] < Free(pos[t]) THEN go(t, "full") /\ UNCHANGED <<w, pos>>
                ELSE pos' = [pos EXCEPT ![t] = w] /\ go(t, "pseq") /\ UNCHANGED w
             /\ UNCHANGED <<r, seq, dat, s, item, put, got, dup>>
PutFail(t) == pc[t] = "full" /\ pos' = [pos EXCEPT ![t] = w] /\ go(t, "pseq") /\ UNCHANGED <<w, r, seq, dat, s, item, put, got, dup>>
PutDat(t) == pc[t] = "pdat" /\ dat' = [dat EXCEPT ![pos[t] % Cap] = item[t]] /\ dup' = (dup \/ dat[pos[t] % Cap] # 0) /\ go(t, "ppub")
             /\ UNCHANGED <<w, r, seq, pos, s, item, put, got>>
PutPub(t) == pc[t] = "ppub" /\ seq' = [seq EXCEPT ![pos[t] % Cap] = Full(pos[t])] /\ go(t, "idle") /\ UNCHANGED <<w, r, dat, pos, s, item, put, got, dup>>
StartTake(t) == pc[t] = "idle" /\ pos' = [pos EXCEPT ![t] = r] /\ go(t, "tseq") /\ UNCHANGED <<w, r, seq, dat, s, item, put, got, dup>>
TakeSeq(t) == pc[t] = "tseq" /\ s' = [s EXCEPT ![t] = seq[pos[t] % Cap]] /\ go(t, "tcmp") /\ UNCHANGED <<w, r, seq, dat, pos, item, put, got, dup>>
TakeCmp(t) == /\ pc[t] = "tcmp"
              /\ IF s[t] = Full(pos[t])
                 THEN IF r = pos[t] THEN r' = r + 1 /\ go(t, "tdat") /\ UNCHANGED pos
                      ELSE pos' = [pos EXCEPT ![t] = r] /\ go(t, "tseq") /\ UNCHANGED r
                 ELSE IF s[t] < Full(pos[t]) THEN go(t, "idle") /\ UNCHANGED <<r, pos>>
                 ELSE pos' = [pos EXCEPT ![t] = r] /\ go(t, "tseq") /\ UNCHANGED r
              /\ UNCHANGED <<w, seq, dat, s, item, put, got, dup>>
TakeDat(t) == /\ pc[t] = "tdat" /\ got' = Append(got, dat[pos[t] % Cap]) /\ dat' = [dat EXCEPT ![pos[t] % Cap] = 0] /\ go(t, "tpub")
              /\ UNCHANGED <<w, r, seq, pos, s, item, put, dup>>
TakePub(t) == pc[t] = "tpub" /\ seq' = [seq EXCEPT ![pos[t] % Cap] = Free(pos[t] + Cap)] /\ go(t, "idle") /\ UNCHANGED <<w, r, dat, pos, s, item, put, got, dup>>
Next == \E t \in Threads : StartPut(t) \/ PutSeq(t) \/ PutCmp(t) \/ PutFail(t) \/ PutDat(t) \/ PutPub(t)
                           \/ StartTake(t) \/ TakeSeq(t) \/ TakeCmp(t) \/ TakeDat(t) \/ TakePub(t)
Spec == Init /\ [][Next]_vars
NoLoss == ~dup                                                  \* no item is written over
Once == \A i, j \in 1..Len(got) : i # j => got[i] # got[j]      \* none is handed out twice
Real == \A i \in 1..Len(got) : got[i] \in 1..MaxPut             \* none is invented
Bound == w - r <= Cap
(* at rest everything put and not taken is held *)
AllHeld == (\A t \in Threads : pc[t] = "idle") => w - r = put - Len(got)
===============================================================================

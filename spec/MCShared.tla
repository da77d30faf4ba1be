------------------------------ MODULE MCShared ------------------------------
(* All interleavings of writes of ranks to one object over some phases: what   *)
(* the ranks hold after an exchange.                                           *)
EXTENDS Shared
CONSTANTS NR, Types, Modes, Keys_, Vals, MaxPhase, MaxPend
VARIABLES s, ty, md, all
vars == <<s, ty, md, all>>
(* component c is the only one of rank c; without verification key k is written by rank (k % NR) + 1 alone *)
Init == /\ ty \in Types /\ md \in Modes
        /\ all = [k \in Keys_ |-> <<>>]
        /\ s = LET f[r \in 0..NR] == IF r = 0 THEN Initial(NR, 1, NR, 1) ELSE Ini(f[r - 1], r, r, 1, 1, ty, md, IF Arr(ty) THEN r + 1 ELSE 0, 0)
               IN f[NR]
May(r, k) == md = "N" => r = (k % NR) + 1
DoWrite == ~s.bad /\ \E r \in 1..NR, k \in Keys_, v \in Vals :
  /\ May(r, k) /\ Len(s.ob[r][1].pend) < MaxPend
  /\ (Arr(ty) => k < s.ob[r][1].n)
  /\ all' = [all EXCEPT ![k] = Append(@, v)]
  /\ s' = IF WriteFails(s, r, r, 1, k, v) THEN [s EXCEPT !.bad = TRUE] ELSE Write(s, r, r, 1, k, v)
  /\ UNCHANGED <<ty, md>>
DoPublish == ~s.bad /\ \E r \in 1..NR : ~s.sl[r][1].published /\ s' = Publish(s, r, r, 1) /\ UNCHANGED <<ty, md, all>>
DoMerge == ~s.bad /\ s.ph < MaxPhase /\ UNCHANGED <<ty, md, all>>
  /\ s' = IF MergeFails(s) THEN [s EXCEPT !.bad = TRUE] ELSE [Merge(s) EXCEPT !.ph = @ + 1]
Next == DoWrite \/ DoPublish \/ DoMerge
Spec == Init /\ [][Next]_vars
Quiet == \A r \in 1..NR : s.ob[r][1].pend = <<>>
Values(k) == {all[k][i] : i \in 1..Len(all[k])}
(* After an exchange all ranks hold the same. *)
Agree == ~s.bad /\ Quiet /\ s.ph >= 0 => \A r, q \in 1..NR : s.ob[r][1].c = s.ob[q][1].c /\ s.ob[r][1].n = s.ob[q][1].n
(* Nothing written is lost: the only value, or the last one of the only writer. *)
Kept == ~s.bad /\ Quiet /\ s.ph >= 0 =>
  \A r \in 1..NR, k \in Keys_ : Len(all[k]) > 0 => Cur(s.ob[r][1], k) = (IF ty = "S" THEN all[k][1] ELSE all[k][Len(all[k])])
(* Different values for one key always end in an error when they are verified. *)
Caught == md = "F" /\ Quiet /\ s.ph >= 0 /\ ~s.bad => \A k \in Keys_ : Cardinality(Values(k)) <= 1
(* With a published instance on every rank the object is fully published after the exchange. *)
FullOnce == (\A r \in 1..NR : s.sl[r][1].published) /\ ~s.bad /\ s.ph >= 0 /\ Quiet =>
  (ENABLED DoMerge => \A r \in 1..NR : Merge(s).ob[r][1].full)
=============================================================================

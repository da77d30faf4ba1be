------------------------------- MODULE Replay -------------------------------
(* Replays recorded sequences of calls on a deterministic specification.     *)
(* Start(h) is the state at the beginning of sequence h (a record with the   *)
(* field l, the calls); Step(s, r) is [st, ok, why]: the next state and      *)
(* whether call r with its recorded results is allowed in state s.           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Data, Start(_), Step(_, _)     \* Data: the sequences
VARIABLES tr, l, st

RInit == tr \in 1..Len(Data) /\ l = 1 /\ st = Start(Data[tr])
RNext == \/ /\ l >= 1 /\ l <= Len(Data[tr].l)
            /\ LET x == Step(st, Data[tr].l[l]) IN
               IF x.ok THEN st' = x.st /\ l' = l + 1 /\ UNCHANGED tr
               ELSE PrintT(<<"REJECT", tr, l, x.why>>) /\ l' = 0 /\ UNCHANGED <<tr, st>>
         \/ l = Len(Data[tr].l) + 1 /\ PrintT(<<"ACCEPT", tr>>) /\ l' = -1 /\ UNCHANGED <<tr, st>>
RSpec == RInit /\ [][RNext]_<<tr, l, st>>
=============================================================================

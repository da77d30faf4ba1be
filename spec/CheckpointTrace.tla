-------------------------- MODULE CheckpointTrace --------------------------
(* When checkpoints are written.  A trace is [per, stop, ser, l] where l    *)
(* lists the checkpoints found, <<n, t>> in the order of n, and the end.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tr, l, k     \* k: checkpoints taken
vars == <<tr, l, k>>
D == Data[tr]
R == D.l[l]

Init == tr \in 1..Len(Data) /\ l = 1 /\ k = 0
Reject(why) == PrintT(<<"REJECT", tr, l, why>>) /\ l' = 0 /\ UNCHANGED <<tr, k>>

Ckpt == /\ R.x = "ck"
        /\ IF R.n # k + 1 THEN Reject("checkpoint number skipped or repeated")
           ELSE IF R.t # (k + 1) * D.per THEN Reject("checkpoint at another time than the next multiple of the period")
           ELSE k' = k + 1 /\ l' = l + 1 /\ UNCHANGED tr
End == /\ R.x = "en"
       /\ IF (k + 1) * D.per < R.t \/ (D.stop = 0 /\ (k + 1) * D.per = R.t) THEN Reject("a checkpoint is missing")
          ELSE IF k * D.per > R.t THEN Reject("checkpoint after the end")
          ELSE IF D.stop > 0 /\ k * D.per > D.stop THEN Reject("checkpoint after the stop time")
          ELSE l' = l + 1 /\ UNCHANGED <<tr, k>>
Next == \/ l >= 1 /\ l <= Len(D.l) /\ (Ckpt \/ End)
        \/ l = Len(D.l) + 1 /\ PrintT(<<"ACCEPT", tr>>) /\ l' = -1 /\ UNCHANGED <<tr, k>>
Spec == Init /\ [][Next]_vars
=============================================================================

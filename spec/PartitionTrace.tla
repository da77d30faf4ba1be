--------------------------- MODULE PartitionTrace ---------------------------
(* Placements made by the partitioners of the simulator.                     *)
EXTENDS Partition, TLC, Json, IOUtils
VARIABLES tr, l, st
Data == JsonDeserialize(IOEnv.VF_TRACES)
R(ok, why) == [st |-> 0, ok |-> ok, why |-> why]
Cut(h) == {<<h.nocut[i][1], h.nocut[i][2]>> : i \in 1..Len(h.nocut)}
Pl(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2]>>]
St0(h) == 0
Do(s, r) ==
  CASE r.op = "refused" ->                             \* a placement the user gave outside the partitions must be refused
         R(r.kind = "self" /\ ~Valid(r.n, r.ranks, r.threads, Pl(r.user)), "the model was refused")
    [] r.op = "placed" ->
         IF Len(r.pl) # r.n THEN R(FALSE, "components are missing or were placed twice")
         ELSE IF r.has # r.deg THEN R(FALSE, "a component has lost a link")
         ELSE LET g == Good(r.kind, r.n, Cut(r), r.ranks, r.threads, Pl(r.user), Pl(r.pl)) IN R(g.ok, g.why)
    [] OTHER -> R(FALSE, "unknown call")
INSTANCE Replay WITH Start <- St0, Step <- Do
=============================================================================

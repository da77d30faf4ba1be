------------------------------ MODULE PoolTrace ------------------------------
EXTENDS Pool, TLC, Json, IOUtils
VARIABLES tr, l, st
Data == JsonDeserialize(IOEnv.VF_TRACES)
St0(h) == NoBlocks
R(s, ok, why) == [st |-> s, ok |-> ok, why |-> why]
Do(p, r) ==
  CASE r.op = "new"   -> LET b == [id |-> r.id, s |-> r.r[1], e |-> r.r[2]] IN
                         IF r.r[3] # 1 THEN R(p, FALSE, "a block is not aligned")
                         ELSE R(Out(p, b), Fits(p, b), "a block overlaps one that is live")
    [] r.op = "del"   -> R(Back(p, r.id), Has(p, r.id) /\ r.r = <<1>>, "the content of a live block changed")
    [] r.op = "chk"   -> R(p, Has(p, r.id) /\ r.r = <<1>>, "the content of a live block changed")
    [] r.op = "usage" -> R(p, r.r = <<Cardinality(p.live)>>, "the number of blocks outstanding is wrong")
    [] r.op = "undel" -> R(p, Len(r.r) = Cardinality(p.live) /\ {r.r[i] : i \in 1..Len(r.r)} = {x.id : x \in p.live},
                           "the blocks reported as not returned are not those outstanding")
    [] OTHER -> R(p, FALSE, "unknown call")
INSTANCE Replay WITH Start <- St0, Step <- Do
==============================================================================

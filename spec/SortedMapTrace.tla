--------------------------- MODULE SortedMapTrace ---------------------------
EXTENDS SortedMap, Json, IOUtils
VARIABLES tr, l, st
Data == JsonDeserialize(IOEnv.VF_TRACES)

St0(h) == Empty
R(s, ok, why) == [st |-> s, ok |-> ok, why |-> why]
Do(m, r) ==
  CASE r.op = "ins"  -> LET n == Put(m, r.k, r.v) IN
                        R(n, r.r = <<n[r.k]>>, "insert returned another item than the one stored under the key")
    [] r.op = "get"  -> R(m, r.r = (IF r.k \in DOMAIN m THEN <<m[r.k]>> ELSE <<>>), "look-up result differs from what is stored")
    [] r.op = "has"  -> R(m, r.r = (IF r.k \in DOMAIN m THEN <<1>> ELSE <<0>>), "contains() differs from what is stored")
    [] r.op = "set"  -> IF r.k \in DOMAIN m THEN R(Set(m, r.k, r.v), r.r = <<1>>, "present key not found")
                        ELSE R(m, r.r = <<>>, "absent key found")
    [] r.op = "size" -> R(m, r.r = <<Cardinality(DOMAIN m)>>, "size differs from the number of keys")
    [] r.op = "iter" -> R(m, r.r = Items(m), "iteration is not the stored items in key order")
    [] r.op = "clear" -> R(Empty, r.r = <<>>, "")
    [] r.op = "sort"  -> R(m, r.r = <<>>, "")
    [] r.op = "load"  -> R(PutAll(Empty, r.items), r.r = <<>>, "the vector handed over was not emptied")
    [] r.op = "filter" -> LET n == Del(m, Range(r.del)) IN
                          R([k \in DOMAIN n |-> IF k \in Range(r.chg) THEN n[k] + 1000 ELSE n[k]], r.r = Items(m),
                            "the filter was not applied to every item once in order")
    [] r.op = "copy"  -> R(m, r.r = <<1>>, "the serialized copy has another size on the wire than computed")
    [] OTHER -> R(m, FALSE, "unknown call")
INSTANCE Replay WITH Start <- St0, Step <- Do
=============================================================================

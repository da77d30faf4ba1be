--------------------------- MODULE EventQueueTrace ---------------------------
EXTENDS EventQueue, TLC, Json, IOUtils
VARIABLES tr, l, st
Data == JsonDeserialize(IOEnv.VF_TRACES)
St0(h) == NoItems
R(s, ok, why) == [st |-> s, ok |-> ok, why |-> why]
RECURSIVE Pops(_, _)
Pops(q, r) == IF r = <<>> \/ q.in = {} THEN [q |-> q, ok |-> r = <<>>]
              ELSE IF First(q)[1] # r[1] THEN [q |-> q, ok |-> FALSE]
              ELSE Pops(Remove(q), Tail(r))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
Do(q, r) ==
  CASE r.op = "ins"   -> R(Insert(q, r.id, r.t, r.p, r.g), r.r = <<>>, "")
    [] r.op = "pop"   -> IF q.in = {} THEN R(q, r.r = <<>>, "an item left an empty queue")
                         ELSE R(Remove(q), r.r = FrontIds(q), "items leave in another order than time, priority, tag, insertion")
    [] r.op = "front" -> R(q, r.r = FrontIds(q), "the front is not the next item")
    [] r.op = "size"  -> LET n == Cardinality(q.in) IN R(q, r.r = <<n, n, IF n = 0 THEN 1 ELSE 0>>, "size, depth or emptiness is wrong")
    [] r.op = "contents" -> R(q, {r.r[i] : i \in 1..Len(r.r)} = {a[1] : a \in q.in} /\ Len(r.r) = Cardinality(q.in),
                              "the copied contents are not the items held")
    (* the items other threads inserted meanwhile all have a later time than those removed *)
    [] r.op = "par"   -> LET x == Pops(q, r.r) IN R(InsertAll(x.q, Flat(r.ins)), x.ok, "wrong item removed while other threads insert")
    [] OTHER -> R(q, FALSE, "unknown call")
INSTANCE Replay WITH Start <- St0, Step <- Do
==============================================================================

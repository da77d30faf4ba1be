----------------------------- MODULE ParamsTrace -----------------------------
(* Recorded calls on parameter sets.  A value is a record: x is its text, c  *)
(* the function from the types it can be read as to its value shown as text, *)
(* it the items if it is a list (each such a record, with k for maps).       *)
EXTENDS Params, Json, IOUtils
VARIABLES tr, l, st
Data == JsonDeserialize(IOEnv.VF_TRACES)

St0(h) == [o |-> <<>>, g |-> None]
R(s, ok, why) == [st |-> s, ok |-> ok, why |-> why]
As(v, t) == IF t = "str" THEN v.x ELSE IF t \in DOMAIN v.c THEN v.c[t] ELSE "refused"
AnyText == "*"        \* texts this specification says nothing about, such as "12abc" read as a number
(* the text a look-up of k as type t gives *)
Find(w, k, r) ==
  LET a == IF k \in DOMAIN w THEN As(w[k], r.t) ELSE r.dc
      f == IF r.form \in {"txtf", "valf"} THEN (IF k \in DOMAIN w THEN " found" ELSE " absent") ELSE ""
  IN IF a \in {"refused", AnyText} THEN a ELSE a \o f
FindOk(w, k, r) == Find(w, k, r) = AnyText \/ r.r = <<Find(w, k, r)>>
Conv(items, t) == [i \in 1..Len(items) |-> As(items[i], t)]
List(w, r) ==
  LET v == IF r.k \in DOMAIN w THEN w[r.k] ELSE [x |-> "", c |-> None, kind |-> "absent", it |-> <<>>]
      items == Conv(v.it, r.t)
      one == As(v, r.t)
  IN CASE v.kind = "absent" -> IF r.as = "array" THEN <<r.zero, r.zero>> ELSE IF r.as = "set" THEN {r.zero} ELSE {<<"zz", r.zero>>}
     [] r.as = "array" -> IF v.kind = "array" THEN (IF "refused" \in Range(items) THEN <<"refused">> ELSE <<r.zero, r.zero>> \o items)
                          ELSE IF one = "refused" THEN <<"refused">> ELSE <<r.zero, r.zero, one>>
     [] r.as = "set"   -> IF v.kind = "set" THEN (IF "refused" \in Range(items) THEN {"refused"} ELSE {r.zero} \cup Range(items))
                          ELSE IF one = "refused" THEN {"refused"} ELSE {r.zero, one}
     [] OTHER          -> IF v.kind # "map" \/ "refused" \in Range(items) THEN {<<"refused", "">>}
                          ELSE {<<k, IF \E i \in 1..Len(v.it) : v.it[i].k = k
                                     THEN items[CHOOSE i \in 1..Len(v.it) : v.it[i].k = k /\ \A j \in (i + 1)..Len(v.it) : v.it[j].k # k]
                                     ELSE r.zero>> : k \in {"zz"} \cup {v.it[i].k : i \in 1..Len(v.it)}}
ListOk(w, r) ==
  LET e == List(w, r)
      free == r.k \in DOMAIN w /\ AnyText \in ({As(w[r.k], r.t)} \cup Range(Conv(w[r.k].it, r.t))) IN
  CASE free -> TRUE
    [] r.k \in DOMAIN w /\ w[r.k].kind = "map" /\ r.as = "set" -> TRUE     \* both are written in braces
    [] r.as = "array" -> r.r = e
    [] r.as = "set" -> Range(r.r) = e /\ Len(r.r) = Cardinality(e)
    [] OTHER -> Range(r.r) = e /\ Len(r.r) = Cardinality(e)

RECURSIVE Once(_)              \* first occurrences only
Once(q) == IF q = <<>> THEN <<>> ELSE LET f == Once(Front(q)) IN IF Last(q) \in Range(f) THEN f ELSE Append(f, Last(q))
Put(s, i, p) == [s EXCEPT !.o = (i :> p) @@ @]
Do(s, r) ==
  LET w == View(s.g, s.o[r.o]) IN
  CASE r.op = "new"    -> R(Put(s, r.o, New), r.r = <<>>, "")
    [] r.op \in {"copy", "assign"} -> R(Put(s, r.o, s.o[r.from]), r.r = <<>>, "")
    [] r.op = "insert" -> R(Put(s, r.o, Insert(s.o[r.o], r.k, r.v, r.ow = 1)), r.r = <<>>, "")
    [] r.op = "merge"  -> R(Put(s, r.o, Merge(s.o[r.o], s.o[r.from])), r.r = <<>>, "")
    [] r.op = "addset" -> R([Put(s, r.o, AddSet(s.o[r.o], r.set)) EXCEPT !.g = WithNew(@, r.set, None)], r.r = <<>>, "")
    [] r.op = "share"  -> R([s EXCEPT !.g = With(@, r.set, IF r.ow = 1 THEN With(Shared(s.g, r.set), r.k, r.v)
                                                         ELSE WithNew(Shared(s.g, r.set), r.k, r.v))], r.r = <<>>, "")
    [] r.op = "clear"  -> R(Put(s, r.o, New), r.r = <<>>, "")
    [] r.op = "scope"  -> R(Put(s, r.o, Scope(s.g, s.o[r.from], r.k)), r.r = <<>>, "")
    [] r.op = "ser"    -> R(Put(s, r.o, IF r.tracked = 1 THEN Flat(s.g, s.o[r.from]) ELSE s.o[r.from]), r.r = <<"whole">>,
                            "the set did not fill the space computed for it")
    [] r.op = "find"   -> R(s, FindOk(w, r.k, r), "the look-up should give " \o Find(w, r.k, r))
    [] r.op = "list"   -> R(s, ListOk(w, r), "the list differs from the value set: " \o ToString(List(w, r)))
    [] r.op = "isarr"  -> R(s, IF r.k \notin DOMAIN w \/ w[r.k].kind = "one" THEN r.r = <<0>> ELSE w[r.k].kind = "array" => r.r = <<1>>, "array test is wrong")
    [] r.op = "has"    -> R(s, r.r = (IF r.k \in DOMAIN w THEN <<1, 1>> ELSE <<0, 0>>), "presence of a key is wrong")
    [] r.op = "keys"   -> R(s, Range(r.r) = DOMAIN w /\ Len(r.r) = Cardinality(DOMAIN w), "the keys listed are not the keys present")
    [] r.op = "local"  -> R(s, Range(r.r) = DOMAIN s.o[r.o].own /\ Len(r.r) = Cardinality(DOMAIN s.o[r.o].own), "the own keys listed are not the own keys present")
    [] r.op = "sets"   -> R(s, Once(r.r) = Once(s.o[r.o].sh), "the shared sets listed are not the ones added")
    [] r.op = "size"   -> R(s, r.r = <<Cardinality(DOMAIN w), IF DOMAIN w = {} THEN 1 ELSE 0>>, "the size is not the number of keys present")
    [] OTHER -> R(s, FALSE, "unknown call")
INSTANCE Replay WITH Start <- St0, Step <- Do
=============================================================================

---------------------------- MODULE SerializeTrace ----------------------------
EXTENDS Serialize, Json, IOUtils, TLC, Integers
VARIABLES tr, l, st
Data == JsonDeserialize(IOEnv.VF_TRACES)
R(ok, why) == [st |-> 0, ok |-> ok, why |-> why]
Bytes(z) == SameBytes(z) /\ z[4] = 1
FirstDiff(a, b) == IF Len(a) # Len(b) THEN "length" ELSE LET d == {i \in DOMAIN a : a[i] # b[i]} IN IF d = {} THEN "" ELSE a[CHOOSE i \in d : \A j \in d : i <= j]
Do(s, r) ==
  IF r.op = "graph" THEN
    CASE ~Bytes(r.r.z) -> R(FALSE, "sizing, packing and unpacking disagree on the number of bytes")
      [] ~Same(r.r.a, r.r.b) -> R(FALSE, "the copy of the object graph differs from the original")
      [] ~Same(r.r.a, r.r.a2) -> R(FALSE, "the original changed")
      [] r.r.f # 1 -> R(FALSE, "the copy shares an object with the original")
      [] ~Bytes(r.r.z2) -> R(FALSE, "sizing, packing and unpacking the copy disagree on the number of bytes")
      [] ~Same(r.r.a, r.r.c) -> R(FALSE, "the copy of the copy differs from the original")
      [] OTHER -> R(TRUE, "")
  ELSE
    CASE ~Bytes(r.z) -> R(FALSE, "sizing, packing and unpacking disagree on the number of bytes")
      [] r.a # r.b -> R(FALSE, "a value differs in the copy: " \o FirstDiff(r.a, r.b))
      [] r.a # r.a2 -> R(FALSE, "the original changed: " \o FirstDiff(r.a, r.a2))
      [] ~Bytes(r.z2) -> R(FALSE, "sizing, packing and unpacking the copy disagree on the number of bytes")
      [] r.a # r.c -> R(FALSE, "a value differs in the copy of the copy: " \o FirstDiff(r.a, r.c))
      [] OTHER -> R(TRUE, "")
St0(h) == 0
INSTANCE Replay WITH Start <- St0, Step <- Do
===============================================================================

------------------------------- MODULE Shared -------------------------------
(* Shared arrays, maps and sets.  Every rank has its copy of every object it   *)
(* knows of; writes are local at first and are exchanged between the phases    *)
(* of the initialization; at setup all objects are locked.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANT Overwrite                   \* a map without verification keeps the last value (the code must; FALSE shows why)

(* ty: type ("" not known on the rank), arr: it is an array, md: F(ull/empty), I(nit), N(o) verification or "" not    *)
(* yet set, iv: initial value, n: length of an array, c: content, inst/pub: instances on the rank and how many have   *)
(* published, full: all instances of all ranks have published, pend: writes the other ranks do not know of,           *)
(* ret: what initialize() returned                                                                                    *)
NoObj == [ty |-> "", md |-> "", iv |-> 0, n |-> 0, c |-> <<>>, inst |-> 0, pub |-> 0, full |-> FALSE, pend |-> <<>>, ret |-> {}]
Arr(ty) == ty \in {"A", "B", "C"}
NoSlot == [o |-> 0, published |-> FALSE]
(* slots of component c: the instances it has *)
Initial(nr, no, nc, ns) ==
  [ob |-> [r \in 1..nr |-> [o \in 1..no |-> NoObj]], sl |-> [c \in 1..nc |-> [i \in 1..ns |-> NoSlot]], ph |-> -1,
   locked |-> FALSE, bad |-> FALSE, try |-> [c \in 1..nc |-> <<>>]]

Cur(ob, k) == IF k \in DOMAIN ob.c THEN ob.c[k] ELSE ob.iv
Clash(ob, k, v) ==
  /\ ob.md # "N"
  /\ IF Arr(ob.ty) /\ ob.md = "I" THEN Cur(ob, k) # ob.iv /\ Cur(ob, k) # v
     ELSE k \in DOMAIN ob.c /\ ob.c[k] # v
Put(ob, k, v) ==
  IF k \in DOMAIN ob.c /\ (ob.ty = "S" \/ (~Overwrite /\ ~Arr(ob.ty))) THEN ob ELSE [ob EXCEPT !.c = (k :> v) @@ @]
ModeClash(ob, md, iv) == ob.md # "" /\ (ob.md # md \/ (Arr(ob.ty) /\ ob.iv # iv))

(* initialize() of slot i of component c on rank r; len is 0 for maps and sets *)
IniFails(s, c, r, i, o, ty, md, len, iv) ==
  LET ob == s.ob[r][o] IN
  \/ s.locked
  \/ s.sl[c][i].o # 0
  \/ ob.ty # "" /\ ob.ty # ty
  \/ (len > 0 \/ ~Arr(ty)) /\ ob.ty # "" /\ ModeClash(ob, md, iv)
Sized(ob, md, len, iv) == [ob EXCEPT !.n = IF len > @ THEN len ELSE @, !.md = md, !.iv = iv]
Ini(s, c, r, i, o, ty, md, len, iv) ==
  LET a == [s.ob[r][o] EXCEPT !.ty = ty, !.inst = @ + 1]
      b == IF Arr(ty) /\ len = 0 THEN a ELSE Sized(a, md, len, iv)
  IN [s EXCEPT !.ob[r][o] = b, !.sl[c][i] = [o |-> o, published |-> FALSE]]
WriteFails(s, c, r, i, k, v) ==
  s.sl[c][i].published \/ s.locked \/ Clash(s.ob[r][s.sl[c][i].o], k, v)
Write(s, c, r, i, k, v) ==
  LET o == s.sl[c][i].o IN [s EXCEPT !.ob[r][o] = [Put(@, k, v) EXCEPT !.pend = Append(@, <<k, v>>)]]
Publish(s, c, r, i) ==
  IF s.sl[c][i].published THEN s
  ELSE [s EXCEPT !.sl[c][i].published = TRUE, !.ob[r][s.sl[c][i].o].pub = @ + 1]

(* ---- exchange between the ranks ---- *)
Known(s, o) == {q \in DOMAIN s.ob : s.ob[q][o].ty # ""}
ApplyTo(x, q, o, from) ==            \* x: [ob, bad] of one rank, from: the object as rank q has it
  IF from.ty = "" THEN x
  ELSE IF x.ob.ty # "" /\ x.ob.ty # from.ty THEN [x EXCEPT !.bad = TRUE]
  ELSE LET t == [x.ob EXCEPT !.ty = from.ty]
           clash == from.md # "" /\ ModeClash(t, from.md, from.iv)
           u == IF from.md = "" THEN t ELSE Sized(t, from.md, from.n, from.iv)
       IN IF clash THEN [x EXCEPT !.bad = TRUE]
          ELSE FoldLeft(LAMBDA y, w : IF Clash(y.ob, w[1], w[2]) THEN [y EXCEPT !.bad = TRUE] ELSE [y EXCEPT !.ob = Put(@, w[1], w[2])],
                        [x EXCEPT !.ob = u], from.pend)
Merged(s, r, o) ==
  FoldLeft(LAMBDA x, q : IF q = r THEN x ELSE ApplyTo(x, q, o, s.ob[q][o]),
           [ob |-> s.ob[r][o], bad |-> FALSE], [q \in 1..Len(s.ob) |-> q])
Full(s, o) == Known(s, o) # {} /\ \A q \in DOMAIN s.ob : s.ob[q][o].pub = s.ob[q][o].inst
MergeFails(s) == \E r \in DOMAIN s.ob : \E o \in DOMAIN s.ob[r] : Merged(s, r, o).bad
Merge(s) ==
  [s EXCEPT !.ob = [r \in DOMAIN s.ob |-> [o \in DOMAIN s.ob[r] |-> [Merged(s, r, o).ob EXCEPT !.pend = <<>>, !.full = Full(s, o)]]]]
Lock(s) ==
  [s EXCEPT !.locked = TRUE, !.ob = [r \in DOMAIN s.ob |-> [o \in DOMAIN s.ob[r] |-> [s.ob[r][o] EXCEPT !.full = TRUE]]]]

Size(ob) == IF Arr(ob.ty) THEN ob.n ELSE Cardinality(DOMAIN ob.c)
Keys(ob) == IF Arr(ob.ty) THEN 0..(ob.n - 1) ELSE DOMAIN ob.c
Least(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x <= y
(* Content as an increasing list of keys with their values *)
Shows(ob, l) ==
  /\ Len(l) = Size(ob)
  /\ \A j \in 1..Len(l) : l[j][1] \in Keys(ob) /\ l[j][2] = Cur(ob, l[j][1]) /\ (j > 1 => l[j - 1][1] < l[j][1])
=============================================================================

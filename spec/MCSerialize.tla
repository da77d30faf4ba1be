----------------------------- MODULE MCSerialize -----------------------------
(* Serialization of object graphs, step by step: the packer walks the graph  *)
(* and writes a stream; the unpacker sees only the stream.  The graph is     *)
(* chosen while it is packed (every reference is null, or to an object met   *)
(* before, or to a new object), which gives every graph of up to N objects   *)
(* that fulfils the precondition that an embedded object is serialized       *)
(* before pointers to it are.  An object has a value, perhaps an embedded    *)
(* object, a raw pointer and a shared pointer.                               *)
EXTENDS Serialize, Integers, SequencesExt
CONSTANTS N, Tracked, Expose,      \* Expose: shared objects are tracked by address as well
          ReportFirst,             \* an object's new address is known before its contents are read
          UnpackOpt                \* the unpacker expects the address of an exposed shared object
VARIABLES heap, raws, shs, work, seen, tags, str,     \* original and packer
          phase, pos, new, rwork, map, own            \* unpacker
vars == <<heap, raws, shs, work, seen, tags, str, phase, pos, new, rwork, map, own>>
Node(n) == [k |-> n, e |-> <<0, 0, 0>>]

Init == /\ heap = <<Node(1)>> /\ raws = {1} /\ shs = {} /\ seen = {} /\ tags = <<>> /\ str = <<>>
        /\ work = <<<<"top", 1>>>> /\ phase = "pack" /\ pos = 1 /\ new = <<>> /\ rwork = <<>>
        /\ map = [x \in {} |-> 0] /\ own = <<>>

Body(n) == <<<<"body", n>>>>
Put(out, todo) == str' = str \o out /\ work' = todo \o Tail(work)
UR == UNCHANGED <<phase, pos, new, rwork, map, own>>

\* A pointer to object p (0: null) is packed
PackPtr(p) == IF p = 0 THEN Put(<<0>>, <<>>) /\ UNCHANGED seen
              ELSE IF ~Tracked THEN Put(<<1>>, Body(p)) /\ UNCHANGED seen
              ELSE IF p \in seen THEN Put(<<p>>, <<>>) /\ UNCHANGED seen
              ELSE Put(<<p>>, Body(p)) /\ seen' = seen \cup {p}
PackShared(p) ==
  IF p = 0 THEN Put(<<0>>, <<>>) /\ UNCHANGED <<tags, seen>>
  ELSE LET i == SelectInSeq(tags, LAMBDA x : x = p) IN
       IF i # 0 THEN Put(<<i>>, <<>>) /\ UNCHANGED <<tags, seen>>
       ELSE /\ tags' = Append(tags, p)
            /\ IF Expose /\ Tracked THEN Put(<<Len(tags) + 1, p>>, Body(p)) /\ seen' = seen \cup {p}
               ELSE Put(<<Len(tags) + 1>>, Body(p)) /\ UNCHANGED seen

Pack ==
  /\ phase = "pack" /\ work # <<>> /\ UR
  /\ LET w == Head(work)
         nx == Len(heap) + 1
         set(h, i, v) == [h EXCEPT ![w[2]].e[i] = v] IN
     \/ w[1] = "top" /\ PackPtr(1) /\ UNCHANGED <<heap, raws, shs, tags>>
     \/ /\ w[1] = "body" /\ UNCHANGED <<shs, tags, seen>>
        /\ \/ /\ Put(<<heap[w[2]].k, 0>>, <<<<"raw", w[2]>>, <<"sh", w[2]>>>>) /\ UNCHANGED <<heap, raws>>
           \/ /\ nx <= N
              /\ heap' = Append(set(heap, 1, nx), Node(nx))
              /\ raws' = IF Tracked THEN raws \cup {nx} ELSE raws
              /\ Put(<<heap[w[2]].k, 1>>, <<<<"emb", nx>>, <<"raw", w[2]>>, <<"sh", w[2]>>>>)
     \/ /\ w[1] = "emb" /\ UNCHANGED <<heap, raws, shs, tags>>
        /\ IF Tracked THEN Put(<<w[2]>>, Body(w[2])) /\ seen' = seen \cup {w[2]}
           ELSE Put(<<>>, Body(w[2])) /\ UNCHANGED seen
     \/ /\ w[1] = "raw" /\ UNCHANGED <<shs, tags>>
        /\ \/ PackPtr(0) /\ UNCHANGED <<heap, raws>>
           \/ Tracked /\ \E p \in raws : PackPtr(p) /\ heap' = set(heap, 2, p) /\ UNCHANGED raws
           \/ nx <= N /\ PackPtr(nx) /\ heap' = Append(set(heap, 2, nx), Node(nx)) /\ raws' = raws \cup {nx}
     \/ /\ w[1] = "sh"
        /\ \/ PackShared(0) /\ UNCHANGED <<heap, raws, shs>>
           \/ \E p \in shs : PackShared(p) /\ heap' = set(heap, 3, p) /\ UNCHANGED <<raws, shs>>
           \/ /\ nx <= N /\ heap' = Append(set(heap, 3, nx), Node(nx)) /\ shs' = shs \cup {nx}
              /\ raws' = (IF Expose /\ Tracked THEN raws \cup {nx} ELSE raws)
              /\ tags' = Append(tags, nx)
              /\ IF Expose /\ Tracked THEN Put(<<Len(tags) + 1, nx>>, Body(nx)) /\ seen' = seen \cup {nx}
                 ELSE Put(<<Len(tags) + 1>>, Body(nx)) /\ UNCHANGED seen

Done == phase = "pack" /\ work = <<>> /\ phase' = "unpack" /\ rwork' = <<<<"root", 0, 0>>>>
        /\ UNCHANGED <<heap, raws, shs, work, seen, tags, str, pos, new, map, own>>

UW == UNCHANGED <<heap, raws, shs, work, seen, tags, str>>
At(i) == IF i \in DOMAIN str THEN str[i] ELSE 0
Fill(nw, m, i, v) == IF m = 0 THEN nw ELSE [nw EXCEPT ![m].e[i] = v]
Learn(f, x, v) == (x :> v) @@ f

Unpack ==
  /\ phase = "unpack" /\ rwork # <<>> /\ UW /\ phase' = phase
  /\ Len(new) <= N /\ pos <= Len(str) + 1
  /\ LET w == Head(rwork)
         t == Tail(rwork)
         x == At(pos)
         k == Len(new) + 1
         m == w[2] IN
     CASE w[1] \in {"root", "raw"} ->
            /\ pos' = pos + 1 /\ own' = own
            /\ IF x = 0 THEN new' = Fill(new, m, 2, 0) /\ rwork' = t /\ map' = map
               ELSE IF Tracked /\ x \in DOMAIN map THEN new' = Fill(new, m, 2, map[x]) /\ rwork' = t /\ map' = map
               ELSE /\ new' = Append(Fill(new, m, 2, k), Node(0))
                    /\ IF ~Tracked THEN rwork' = <<<<"body", k, 0>>>> \o t /\ map' = map
                       ELSE IF ReportFirst THEN rwork' = <<<<"body", k, 0>>>> \o t /\ map' = Learn(map, x, k)
                       ELSE rwork' = <<<<"body", k, 0>>, <<"report", k, x>>>> \o t /\ map' = map
       [] w[1] = "report" -> map' = Learn(map, w[3], m) /\ rwork' = t /\ UNCHANGED <<pos, new, own>>
       [] w[1] = "body" ->
            /\ pos' = pos + 2 /\ UNCHANGED <<map, own>>
            /\ new' = [new EXCEPT ![m].k = x]
            /\ rwork' = (IF At(pos + 1) = 1 THEN <<<<"emb", m, 0>>>> ELSE <<>>) \o <<<<"raw", m, 0>>, <<"sh", m, 0>>>> \o t
       [] w[1] = "emb" ->
            /\ own' = own
            /\ new' = Append(Fill(new, m, 1, k), Node(0))
            /\ rwork' = <<<<"body", k, 0>>>> \o t
            /\ IF Tracked THEN pos' = pos + 1 /\ map' = Learn(map, x, k) ELSE pos' = pos /\ map' = map
       [] w[1] = "sh" ->
            IF x = 0 THEN pos' = pos + 1 /\ rwork' = t /\ UNCHANGED <<new, map, own>>
            ELSE IF x <= Len(own) THEN pos' = pos + 1 /\ rwork' = t /\ new' = Fill(new, m, 3, own[x]) /\ UNCHANGED <<map, own>>
            ELSE /\ own' = Append(own, k)
                 /\ new' = Append(Fill(new, m, 3, k), Node(0))
                 /\ rwork' = <<<<"body", k, 0>>>> \o t
                 /\ IF Expose /\ Tracked /\ UnpackOpt THEN pos' = pos + 2 /\ map' = Learn(map, At(pos + 1), k)
                    ELSE pos' = pos + 1 /\ map' = map
End == phase = "unpack" /\ rwork = <<>> /\ phase' = "end" /\ UW /\ UNCHANGED <<pos, new, rwork, map, own>>
Next == Pack \/ Done \/ Unpack \/ End
Spec == Init /\ [][Next]_vars

Faithful == phase = "end" => pos = Len(str) + 1 /\ Same([root |-> 1, n |-> heap], [root |-> 1, n |-> new])
\* The unpacker is never at a loss
Goes == phase = "unpack" => (rwork = <<>> \/ (Len(new) <= N /\ pos <= Len(str) + 1))
==============================================================================

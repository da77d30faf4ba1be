-------------------------------- MODULE Params --------------------------------
(* Parameter sets.  A key is the sequence of its segments ("a.b" is          *)
(* <<"a", "b">>).  A set p has its own keys and a list of the names of the   *)
(* shared sets it looks at; shared sets g are global.                        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

None == [k \in {} |-> 0]
New == [own |-> None, sh |-> <<>>]
With(f, k, v) == (k :> v) @@ f
WithNew(f, k, v) == IF k \in DOMAIN f THEN f ELSE With(f, k, v)
Shared(g, s) == IF s \in DOMAIN g THEN g[s] ELSE None

(* The value a look-up sees: the set's own, else that of the first shared    *)
(* set that has one.                                                         *)
RECURSIVE InSets(_, _)
InSets(g, sh) == IF sh = <<>> THEN None ELSE Shared(g, sh[1]) @@ InSets(g, Tail(sh))
View(g, p) == p.own @@ InSets(g, p.sh)

Insert(p, k, v, over) == [p EXCEPT !.own = IF over THEN With(@, k, v) ELSE WithNew(@, k, v)]
Merge(p, q) == [own |-> p.own @@ q.own, sh |-> p.sh \o SelectSeq(q.sh, LAMBDA s : s \notin Range(p.sh))]
AddSet(p, s) == [p EXCEPT !.sh = Append(@, s)]
Flat(g, p) == [own |-> View(g, p), sh |-> <<>>]

Under(k, scope) == Len(k) > Len(scope) /\ SubSeq(k, 1, Len(scope)) = scope
Strip(k, scope) == SubSeq(k, Len(scope) + 1, Len(k))
Scope(g, p, scope) ==
  LET v == View(g, p)
  IN [own |-> [k \in {Strip(x, scope) : x \in {y \in DOMAIN v : Under(y, scope)}} |-> v[scope \o k]], sh |-> <<>>]
=============================================================================
